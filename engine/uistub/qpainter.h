#include "QPainter"
