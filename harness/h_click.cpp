// Double clicks in the player's view: the clicked pane grows to the whole picture, the next double click brings the four panes back.
#include "common.h"
#include <QOpenGLWidget>
#include "wgt_nbody_view.h"
#include "uistub/gl.inc"
#include <QCoreApplication>
#include <QElapsedTimer>
#include <QThread>
// the split point once it has stopped moving
static QPointF settled(wgt_nbody_view& v)
{
	QElapsedTimer all, same; all.start(); same.start(); QPointF p = v.get_split_point();
	while(same.elapsed() < 250 && all.elapsed() < 20000)
	{
		QThread::msleep(5); QCoreApplication::processEvents();
		QPointF q = v.get_split_point();
		if(q.x() != p.x() || q.y() != p.y()) { p = q; same.restart(); }
	}
	return p;
}
static void click(wgt_nbody_view& v, int x, int y)
{
	QMouseEvent e(QEvent::MouseButtonDblClick, QPointF(0, 0), Qt::LeftButton, Qt::LeftButton, Qt::NoModifier);
	e.setLocalPos(QPointF(x, y)); v.mouseDoubleClickEvent(&e);
}
int main(int argc, char** argv)
{
	QCoreApplication app(argc, argv);
	int lim = sym_param("lim", 4000);
	int symsize = sym_param("symsize", 0), W = sym_param("w", 640), H = sym_param("hh", 480);
	if(symsize) { W = int(sym_u64("w", 640, 2, lim)); H = int(sym_u64("hh", 480, 2, lim)); }
	int x = int(sym_u64("x", 10, 0, lim)), y = int(sym_u64("y", 10, 0, lim));
	int x2 = int(sym_u64("x2", 10, 0, lim)), y2 = int(sym_u64("y2", 10, 0, lim));
	sym_assume(x < W); sym_assume(y < H); sym_assume(x2 < W); sym_assume(y2 < H);
	// off the lines between the panes
	sym_assume(x != W / 2); sym_assume(y != H / 2);
	nbody_data data; data.add_body(nbvertex_t(1, 2, 3), nbvertex_t(0, 0, 0), 1, nbcolor_t(1, 1, 1, 1), 0.5);
	wgt_nbody_view view(&data); view.resize(W, H);
	QPointF p = view.get_split_point();
	sym_check(p.x() == 0.5 && p.y() == 0.5, "four equal panes at first");
	click(view, x, y); p = settled(view);
	double px = p.x(), py = p.y();
	// the picture counts upwards, the mouse downwards
	sym_check(sym_or(x < W / 2, px == 0), "a click on the right fills the width with a right pane"); sym_check(sym_or(x > W / 2, px == 1), "a click on the left fills the width with a left pane");
	sym_check(sym_or(y < H / 2, py == 1), "a click below fills the height with a lower pane"); sym_check(sym_or(y > H / 2, py == 0), "a click above fills the height with an upper pane");
	click(view, x2, y2); p = settled(view);
	sym_check(p.x() == 0.5 && p.y() == 0.5, "the next click brings the four panes back");
	click(view, x, y); p = settled(view);
	sym_check(p.x() == px && p.y() == py, "and so on");
	sym_reached("clicked");
	return 0;
}
