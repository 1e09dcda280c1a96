// OpenGL as far as drawing points and looking at them goes: what is drawn is recorded together with the view it is drawn in
#include <GL/gl.h>
#include <GL/glu.h>
#include <string>
#include <vector>
struct UiPoint { double r[3], c[4]; };
struct UiView { int x, y, w, h; double eye[3], at[3], up[3], fovy, aspect, znear, zfar; };
struct UiDraw { UiView v; unsigned mode; std::vector<UiPoint> p; double size; bool depth, view_ok, adds; };
std::vector<UiDraw> ui_draws; int ui_clears; std::vector<QString> ui_text; std::vector<UiLine> ui_lines;
static UiView ui_v; static unsigned ui_src = GL_ONE, ui_dst = GL_ZERO, ui_mm = GL_MODELVIEW; static double ui_bc[4] = {0, 0, 0, 0}; static bool ui_blend, ui_depth; static std::string ui_mat[2]; static double ui_col[4] = {1, 1, 1, 1}, ui_size = 1; static UiDraw* ui_cur;
struct UiArray { int on, n; unsigned type; long stride; const char* p; };
static UiArray ui_va, ui_ca;
static double ui_get(const UiArray& a, long i, int k)
{
	if(k >= a.n) return k == 3 ? 1 : 0;
	if(a.type == GL_DOUBLE) { double d; const char* q = a.p + i * (a.stride ? a.stride : 8 * a.n) + 8 * k; d = *(const double*)q; return d; }
	if(a.type == GL_FLOAT) return *(const float*)(a.p + i * (a.stride ? a.stride : 4 * a.n) + 4 * k);
	sym_fail("unsupported vertex type"); return 0;
}
// the light a point adds to the picture
static void ui_light(double* c)
{
	for(int k = 0; k < 4; ++k) c[k] = ui_col[k];
	if(!ui_blend) return;
	for(int k = 0; k < 4; ++k)
		switch(ui_src)
		{
		case GL_ONE: break;
		case GL_CONSTANT_ALPHA: c[k] = c[k] * ui_bc[3]; break;
		case GL_CONSTANT_COLOR: c[k] = c[k] * ui_bc[k]; break;
		case GL_SRC_ALPHA: c[k] = c[k] * ui_col[3]; break;
		default: sym_fail("unsupported blend factor");
		}
}
static void ui_vertex(double x, double y, double z) { if(!ui_cur) return; UiPoint q; q.r[0] = x; q.r[1] = y; q.r[2] = z; ui_light(q.c); ui_cur->p.push_back(q); }
static void ui_color(double r, double g, double b, double a) { ui_col[0] = r; ui_col[1] = g; ui_col[2] = b; ui_col[3] = a; }
static void ui_start(unsigned mode) { UiDraw d; d.v = ui_v; d.mode = mode; d.size = ui_size; d.depth = ui_depth; d.adds = ui_blend && ui_dst == GL_ONE; d.view_ok = ui_mat[0] + ui_mat[1] == "PL"; ui_draws.push_back(d); ui_cur = &ui_draws.back(); }
void UiFunctions::glBlendColor(float r, float g, float b, float a) { ui_bc[0] = r; ui_bc[1] = g; ui_bc[2] = b; ui_bc[3] = a; }
static std::string& ui_matrix() { return ui_mat[ui_mm == GL_PROJECTION ? 0 : 1]; }
extern "C" {
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { ui_v.x = x; ui_v.y = y; ui_v.w = w; ui_v.h = h; }
void gluLookAt(GLdouble a, GLdouble b, GLdouble c, GLdouble d, GLdouble e, GLdouble f, GLdouble g, GLdouble h, GLdouble i) { ui_v.eye[0] = a; ui_v.eye[1] = b; ui_v.eye[2] = c; ui_v.at[0] = d; ui_v.at[1] = e; ui_v.at[2] = f; ui_v.up[0] = g; ui_v.up[1] = h; ui_v.up[2] = i; ui_matrix() += 'L'; }
void gluPerspective(GLdouble fovy, GLdouble aspect, GLdouble n, GLdouble f) { ui_v.fovy = fovy; ui_v.aspect = aspect; ui_v.znear = n; ui_v.zfar = f; ui_matrix() += 'P'; }
void glPointSize(GLfloat s) { ui_size = s; }
void glBegin(GLenum m) { ui_start(m); }
void glEnd(void) { ui_cur = 0; }
void glVertex3dv(const GLdouble* v) { ui_vertex(v[0], v[1], v[2]); } void glVertex3d(GLdouble x, GLdouble y, GLdouble z) { ui_vertex(x, y, z); } void glVertex3fv(const GLfloat* v) { ui_vertex(v[0], v[1], v[2]); } void glVertex3f(GLfloat x, GLfloat y, GLfloat z) { ui_vertex(x, y, z); }
void glColor3dv(const GLdouble* v) { ui_color(v[0], v[1], v[2], 1); } void glColor3d(GLdouble x, GLdouble y, GLdouble z) { ui_color(x, y, z, 1); } void glColor3f(GLfloat x, GLfloat y, GLfloat z) { ui_color(x, y, z, 1); } void glColor3fv(const GLfloat* v) { ui_color(v[0], v[1], v[2], 1); }
void glColor4f(GLfloat x, GLfloat y, GLfloat z, GLfloat a) { ui_color(x, y, z, a); } void glColor4fv(const GLfloat* v) { ui_color(v[0], v[1], v[2], v[3]); } void glColor4dv(const GLdouble* v) { ui_color(v[0], v[1], v[2], v[3]); } void glColor4d(GLdouble x, GLdouble y, GLdouble z, GLdouble a) { ui_color(x, y, z, a); }
void glEnableClientState(GLenum s) { (s == GL_VERTEX_ARRAY ? ui_va : ui_ca).on = 1; } void glDisableClientState(GLenum s) { (s == GL_VERTEX_ARRAY ? ui_va : ui_ca).on = 0; }
void glVertexPointer(GLint n, GLenum t, GLsizei s, const GLvoid* p) { ui_va.n = n; ui_va.type = t; ui_va.stride = s; ui_va.p = (const char*)p; }
void glColorPointer(GLint n, GLenum t, GLsizei s, const GLvoid* p) { ui_ca.n = n; ui_ca.type = t; ui_ca.stride = s; ui_ca.p = (const char*)p; }
static void ui_element(long i) { if(ui_ca.on) ui_color(ui_get(ui_ca, i, 0), ui_get(ui_ca, i, 1), ui_get(ui_ca, i, 2), ui_get(ui_ca, i, 3)); ui_vertex(ui_get(ui_va, i, 0), ui_get(ui_va, i, 1), ui_get(ui_va, i, 2)); }
void glArrayElement(GLint i) { ui_element(i); }
void glDrawArrays(GLenum m, GLint first, GLsizei count) { if(!ui_va.on) return; ui_start(m); for(GLint i = first; i < first + count; ++i) ui_element(i); ui_cur = 0; }
void glLineWidth(GLfloat) {} void glEnable(GLenum c) { if(c == GL_BLEND) ui_blend = true; if(c == GL_DEPTH_TEST) ui_depth = true; } void glDisable(GLenum c) { if(c == GL_BLEND) ui_blend = false; if(c == GL_DEPTH_TEST) ui_depth = false; } void glShadeModel(GLenum) {} void glBlendFunc(GLenum s, GLenum d) { ui_src = s; ui_dst = d; } void glMatrixMode(GLenum m) { ui_mm = m; } void glLoadIdentity(void) { ui_matrix().clear(); } void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat) {} void glClear(GLbitfield) { ui_clears++; } void glFlush(void) {} void glFinish(void) {} void glPushMatrix(void) {} void glPopMatrix(void) {} void glPushAttrib(GLbitfield) {} void glPopAttrib(void) {} void glHint(GLenum, GLenum) {}
void glGetFloatv(GLenum, GLfloat* v) { v[0] = 1; }
}
