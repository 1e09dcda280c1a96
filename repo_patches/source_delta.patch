From 8f144ba5908cdfda827b87f5fe1cf78233955bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:30 +0000
Subject: [PATCH 01/26] fix: trapeze corrector evaluates the derivative at the
 end of the step

---
 nbody/nbody_solver_trapeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..198ff4b 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -41,7 +41,7 @@ void nbody_solver_trapeze::advise(nbcoord_t dt)
 	for(size_t s = 0; s <= m_refine_steps_count; ++s)
 	{
 		const nbcoord_t	coeff[] = { dt / 2_f, dt / 2_f };
-		engine()->fcompute(t, m_predictor, m_f[1]);
+		engine()->fcompute(t + dt, m_predictor, m_f[1]);
 
 		if(s == m_refine_steps_count)
 		{
-- 
2.43.0


From cf6ccd36f019456b5bb1af97621b2cf5bd95835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:30 +0000
Subject: [PATCH 02/26] fix: resetting the Adams solver also resets its starter

---
 nbody/nbody_solver_adams.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..6b267df 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -97,5 +97,6 @@ void nbody_solver_adams::reset()
 	{
 		engine()->fill_buffer(m_corr_data, 0);
 	}
+	m_starter->reset();
 	m_step = 0;
 }
-- 
2.43.0


From dd1a5016099f8cf41fc62b238e02616894595037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:38 +0000
Subject: [PATCH 03/26] fix: resetting an implicit Runge-Kutta solver forgets
 the previous stage values

---
 nbody/nbody_solver_rk_butcher.cpp | 9 ++++++---
 nbody/nbody_solver_rk_butcher.h   | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..79ae4e1 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -12,7 +12,8 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 	m_substep_subdivisions(8),
 	m_error_threshold(1e-4),
 	m_refine_steps_count(1),
-	m_correction(false)
+	m_correction(false),
+	m_k_initiated(false)
 {
 }
 
@@ -79,6 +80,7 @@ void nbody_solver_rk_butcher::print_info() const
 
 void nbody_solver_rk_butcher::reset()
 {
+	m_k_initiated = false;
 	if(m_ycorr_data != nullptr)
 	{
 		engine()->fill_buffer(m_ycorr_data, 0);
@@ -170,14 +172,13 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 	const nbcoord_t*	c = m_bt->get_c();
 	size_t				ps = engine()->problem_size();
 	size_t				coeff_count = steps + 1;
-	bool				need_first_approach_k = false;
+	bool				need_first_approach_k = !m_k_initiated;
 
 	std::vector<nbcoord_t>	coeff;
 	coeff.resize(coeff_count);
 
 	if(m_k.empty())
 	{
-		need_first_approach_k  = true;
 		m_k = engine()->create_buffers(sizeof(nbcoord_t) * ps, steps);
 		m_t = engine()->create_buffer(sizeof(nbcoord_t) * ps);
 		m_tmpk = engine()->create_buffer(sizeof(nbcoord_t) * ps);
@@ -191,6 +192,8 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 		}
 	}
 
+	m_k_initiated = true;
+
 	for(size_t sub_n = 0; sub_n != substeps_count; ++sub_n, t += dt)
 	{
 		if(m_bt->is_implicit())
diff --git a/nbody/nbody_solver_rk_butcher.h b/nbody/nbody_solver_rk_butcher.h
index 7b62772..06d48b9 100644
--- a/nbody/nbody_solver_rk_butcher.h
+++ b/nbody/nbody_solver_rk_butcher.h
@@ -19,6 +19,8 @@ class NBODY_DLL nbody_solver_rk_butcher : public nbody_solver
 	nbcoord_t					m_error_threshold;
 	size_t						m_refine_steps_count;
 	bool						m_correction;
+	//! Stage values of a previous step are available as the first approach for the next one
+	bool							m_k_initiated;
 public:
 	explicit nbody_solver_rk_butcher(nbody_butcher_table*);
 	~nbody_solver_rk_butcher();
-- 
2.43.0


From 1e3d9ae6a65ecb74bedb16f76015fe1cf2a441d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:06 +0000
Subject: [PATCH 04/26] fix: a Bulirsch-Stoer step advances the step counter
 once, not once per internal substep

---
 nbody/nbody_solver_bulirsch_stoer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index f6c2468..3587aed 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -95,6 +95,7 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 
 	nbody_engine::memory*	y = engine()->get_y();
 	nbcoord_t				t0(engine()->get_time());
+	size_t					step0(engine()->get_step());
 
 	engine()->copy_buffer(m_y0, y);
 
@@ -118,6 +119,7 @@ void nbody_solver_bulirsch_stoer::advise(nbcoord_t dt)
 	}
 
 	engine()->set_time(t0);
+	engine()->set_step(step0);
 	engine()->advise_time(dt);
 }
 
-- 
2.43.0


From 95cc01193625b593cc89b3b30888887f6db53bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:59 +0000
Subject: [PATCH 05/26] fix: block engine handles body counts that are not a
 multiple of the block size

---
 nbody/nbody_engine_block.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_engine_block.cpp b/nbody/nbody_engine_block.cpp
index 8c12813..9969bb2 100644
--- a/nbody/nbody_engine_block.cpp
+++ b/nbody/nbody_engine_block.cpp
@@ -1,5 +1,6 @@
 #include "nbody_engine_block.h"
 #include <omp.h>
+#include <algorithm>
 #include <QDebug>
 
 nbody_engine_block::nbody_engine_block()
@@ -57,8 +58,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		nbcoord_t			total_force_x[block];
 		nbcoord_t			total_force_y[block];
 		nbcoord_t			total_force_z[block];
+		const size_t		size1 = std::min(block, count - n1);
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != size1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 
@@ -75,8 +77,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			nbcoord_t			y2[block];
 			nbcoord_t			z2[block];
 			nbcoord_t			m2[block];
+			const size_t		size2 = std::min(block, count - n2);
 
-			for(size_t b2 = 0; b2 != block; ++b2)
+			for(size_t b2 = 0; b2 != size2; ++b2)
 			{
 				size_t local_n2 = b2 + n2;
 
@@ -86,9 +89,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 				m2[b2] = mass[n2 + b2];
 			}
 
-			for(size_t b1 = 0; b1 != block; ++b1)
+			for(size_t b1 = 0; b1 != size1; ++b1)
 			{
-				for(size_t b2 = 0; b2 != block; ++b2)
+				for(size_t b2 = 0; b2 != size2; ++b2)
 				{
 					nbcoord_t		dx = x1[b1] - x2[b2];
 					nbcoord_t		dy = y1[b1] - y2[b2];
@@ -112,7 +115,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			}
 		}
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != size1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 			frx[local_n1] = vx[local_n1];
-- 
2.43.0


From fa7498563688aa0063683c5c40875fbe24dc15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:59 +0000
Subject: [PATCH 06/26] fix: fmaddn writes its destination even if every
 coefficient is zero

copy_buffer, which it uses for that, is bounded by the sizes of the buffers
(as fill_buffer already is), because callers may pass short buffers.
---
 nbody/nbody_engine.cpp        | 5 +++++
 nbody/nbody_engine_openmp.cpp | 3 ++-
 nbody/nbody_engine_simple.cpp | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_engine.cpp b/nbody/nbody_engine.cpp
index d13ff1d..2420d5e 100644
--- a/nbody/nbody_engine.cpp
+++ b/nbody/nbody_engine.cpp
@@ -110,6 +110,11 @@ void nbody_engine::fmaddn(memory* a, const memory* b, const memory_array& c,
 		}
 		a_initiated = true;
 	}
+
+	if(!a_initiated)
+	{
+		copy_buffer(a, b);
+	}
 }
 
 void nbody_engine::print_info() const
diff --git a/nbody/nbody_engine_openmp.cpp b/nbody/nbody_engine_openmp.cpp
index 64bf366..085d290 100644
--- a/nbody/nbody_engine_openmp.cpp
+++ b/nbody/nbody_engine_openmp.cpp
@@ -1,4 +1,5 @@
 #include "nbody_engine_openmp.h"
+#include <algorithm>
 #include <QDebug>
 #include <omp.h>
 #include "summation.h"
@@ -122,7 +123,7 @@ void nbody_engine_openmp::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = std::min(_a->size(), _b->size()) / sizeof(nbcoord_t);
 
 	#pragma omp parallel for
 	for(size_t i = 0; i < count; ++i)
diff --git a/nbody/nbody_engine_simple.cpp b/nbody/nbody_engine_simple.cpp
index 6ef25f8..b14882d 100644
--- a/nbody/nbody_engine_simple.cpp
+++ b/nbody/nbody_engine_simple.cpp
@@ -1,4 +1,5 @@
 #include "nbody_engine_simple.h"
+#include <algorithm>
 #include <QDebug>
 #include "summation.h"
 
@@ -252,7 +253,7 @@ void nbody_engine_simple::copy_buffer(nbody_engine::memory* __a, const nbody_eng
 
 	nbcoord_t*			a = reinterpret_cast<nbcoord_t*>(_a->data());
 	const nbcoord_t*	b = reinterpret_cast<const nbcoord_t*>(_b->data());
-	size_t				count = problem_size();
+	size_t				count = std::min(_a->size(), _b->size()) / sizeof(nbcoord_t);
 
 	for(size_t i = 0; i < count; ++i)
 	{
-- 
2.43.0


From cd2cf7ab1830df73dd310aa427dd4841292784af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 07/26] fix: Barnes-Hut heap layout for body counts that are
 not a power of two

---
 nbody/nbody_space_heap.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..1bb2829 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -1,5 +1,25 @@
 #include "nbody_space_heap.h"
 
+namespace {
+// Largest power of two not greater than val
+size_t last_power_of_two(size_t val)
+{
+	size_t	p = 1;
+	while(p <= val / 2)
+	{
+		p *= 2;
+	}
+	return p;
+}
+
+// Leaf count of the left subtree of a complete heap with 'count' leaves
+size_t left_subtree_size(size_t count)
+{
+	size_t	p = last_power_of_two(count);
+	return p / 2 + std::min(count - p, p / 2);
+}
+} //namespace
+
 nbody_space_heap::nbody_space_heap() :
 	m_distance_to_node_radius_ratio_sqr(0)
 {
@@ -49,10 +69,12 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	// Inner nodes of a complete heap are [1, count), process them level by level from the lowest one
+	for(size_t level_start = last_power_of_two(count); level_start > 0; level_start /= 2)
 	{
+		size_t	level_end = std::min(2 * level_start, count);
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = level_start; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
@@ -146,7 +168,7 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	size_t	left_size = left_subtree_size(count);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From 49f017f7b847b6a045597bd20e57c7a9c7a8b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 08/26] fix: nested tree traversal visits leaves only, also
 when bodies coincide

---
 nbody/nbody_space_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..66e38bb 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,7 +59,7 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			if(curr->m_body_n == TREE_NO_BODY)
 			{
 				if(curr->m_left != NULL)
 				{
-- 
2.43.0


From 8339b33265c611c5a7bc8a3cfd222dccc22a1d88 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:30:58 +0000
Subject: [PATCH 09/26] fix: seeking a stream reader to its current frame
 repositions the data file

---
 nbody/nbody_data_stream_reader.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..0a1eee0 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -221,11 +221,6 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
-	{
-		return 0;
-	}
-
 	if(frame >= d->m_frames.size())
 	{
 		qDebug() << "Can't seek to frame" << frame << "Out of range";
@@ -300,9 +295,9 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
-	if(0 != seek(d->m_current_frame))
+	if(d->m_current_frame >= d->m_frames.size())
 	{
-		qDebug() << "Can't seek to current frame" << d->m_current_frame;
+		qDebug() << "Current frame is out of range" << d->m_current_frame;
 		return -1;
 	}
 
-- 
2.43.0


From 27ea007a2a9cc23f088e3797cdeb36d8c7cd8964 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 10/26] fix: a stream reader hands masses and colours of the
 loaded stream to every destination

---
 nbody/nbody_data_stream_reader.cpp | 70 +++++++++++++++---------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 0a1eee0..da8119e 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -1,6 +1,7 @@
 #include "nbody_data_stream_reader.h"
 #include "nbody_data_stream.h"
 #include "nbody_engine.h"
+#include <algorithm>
 #include <vector>
 #include <map>
 #include <limits>
@@ -29,16 +30,14 @@ struct nbody_data_stream_reader::data
 	size_t						m_coord_size;
 	size_t						m_body_count;
 	size_t						m_box_size;
-	bool						m_colors_read;
-	bool						m_masses_read;
+	std::vector<nbcolor_t>		m_colors;
+	std::vector<nbcoord_t>		m_masses;
 	data() :
 		m_file_n(std::numeric_limits<size_t>::max()),
 		m_current_frame(std::numeric_limits<size_t>::max()),
 		m_coord_size(0),
 		m_body_count(0),
-		m_box_size(0),
-		m_colors_read(false),
-		m_masses_read(false)
+		m_box_size(0)
 	{
 	}
 
@@ -71,38 +70,42 @@ struct nbody_data_stream_reader::data
 		}
 	}
 
-	int read_colors(nbody_data* bdata)
+	template<class T>
+	static bool read_items(const QString& name, size_t count, std::vector<T>& items)
 	{
-		QFile	col(nbody_data_stream::make_col_name(m_file_base_name));
-		if(!col.open(QFile::ReadOnly))
+		QFile	file(name);
+		if(!file.open(QFile::ReadOnly))
 		{
-			qDebug() << "Can't open file" << col.fileName() << col.errorString();
-			return -1;
+			qDebug() << "Can't open file" << file.fileName() << file.errorString();
+			return false;
 		}
-		qint64		col_sz(sizeof(nbcolor_t)*bdata->get_count());
-		if(col_sz != col.read(reinterpret_cast<char*>(bdata->get_color()), col_sz))
+		std::vector<T>	tmp(count);
+		qint64			sz(static_cast<qint64>(sizeof(T)*count));
+		if(sz != file.read(reinterpret_cast<char*>(tmp.data()), sz))
 		{
-			qDebug() << "Can't read file" << col.fileName() << col.errorString();
-			return -1;
+			qDebug() << "Can't read file" << file.fileName() << file.errorString();
+			return false;
 		}
-		return 0;
+		items.swap(tmp);
+		return true;
 	}
 
-	int read_masses(nbody_data* bdata)
+	void read_colors(nbody_data* bdata)
 	{
-		QFile	mass(nbody_data_stream::make_mass_name(m_file_base_name));
-		if(!mass.open(QFile::ReadOnly))
+		if(!m_colors.empty() ||
+		   read_items(nbody_data_stream::make_col_name(m_file_base_name), m_body_count, m_colors))
 		{
-			qDebug() << "Can't open file" << mass.fileName() << mass.errorString();
-			return -1;
+			std::copy(m_colors.begin(), m_colors.end(), bdata->get_color());
 		}
-		qint64		mass_sz(sizeof(nbcoord_t)*bdata->get_count());
-		if(mass_sz != mass.read(reinterpret_cast<char*>(bdata->get_mass()), mass_sz))
+	}
+
+	void read_masses(nbody_data* bdata)
+	{
+		if(!m_masses.empty() ||
+		   read_items(nbody_data_stream::make_mass_name(m_file_base_name), m_body_count, m_masses))
 		{
-			qDebug() << "Can't read file" << mass.fileName() << mass.errorString();
-			return -1;
+			std::copy(m_masses.begin(), m_masses.end(), bdata->get_mass());
 		}
-		return 0;
 	}
 };
 
@@ -191,6 +194,11 @@ void nbody_data_stream_reader::close()
 	d->m_step2frame.clear();
 	d->m_time2frame.clear();
 	d->m_file_base_name.clear();
+	d->m_colors.clear();
+	d->m_masses.clear();
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
@@ -329,16 +337,8 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		}
 	}
 
-	if(!d->m_colors_read)
-	{
-		d->m_colors_read = (0 == d->read_colors(bdata));
-	}
-
-	if(!d->m_masses_read)
-	{
-		d->m_masses_read = (0 == d->read_masses(bdata));
-	}
-
+	d->read_colors(bdata);
+	d->read_masses(bdata);
 
 	return 0;
 }
-- 
2.43.0


From 150d2606a8be4fde01c54bf52c9fbf2553f7197b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 11/26] fix: a reopened stream writes its header again

---
 nbody/nbody_data_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..ec5331c 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -173,12 +173,12 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	if(append_mode)
 	{
 		d->m_file_n = append_to->get_last_file_n();
-		d->m_header_written = true;
 	}
 	else
 	{
 		d->m_file_n = 0;
 	}
+	d->m_header_written = append_mode;
 
 	if(0 != d->open_data_file(append_mode))
 	{
-- 
2.43.0


From 922f8b1afc9a58a140a7707acf2c2ed7ab2acddd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 12/26] fix: frame times are stored with full decimal precision

---
 nbody/nbody_data_stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index ec5331c..90410b8 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -6,6 +6,7 @@
 #include <QDir>
 #include <QTextStream>
 #include <QDebug>
+#include <limits>
 
 struct nbody_data_stream::data
 {
@@ -54,6 +55,7 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		m_idx_stream.setDevice(&m_idx);
+		m_idx_stream.setRealNumberPrecision(std::numeric_limits<nbcoord_t>::digits10);
 		return 0;
 	}
 
-- 
2.43.0


From a4d5154dd731aac426b93179853e399bc3c14434 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:33:56 +0000
Subject: [PATCH 13/26] fix: writing a frame reports errors that surface when
 the files are flushed

---
 nbody/nbody_data_stream.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 90410b8..e03fa83 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -72,7 +72,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcolor_t)*bdata->get_count());
-			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz))
+			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz) || !col.flush())
 			{
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
@@ -86,7 +86,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcoord_t)*bdata->get_count());
-			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz))
+			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz) || !mass.flush())
 			{
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
@@ -151,7 +151,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
+	if(!d->m_data.flush())
+	{
+		qDebug() << "Can't write file" << d->m_data.fileName()
+				 << d->m_data.errorString();
+		return -1;
+	}
 
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
@@ -159,6 +164,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 					<< fpos << "\n";
 
 	d->m_idx_stream.flush();
+	if(d->m_idx_stream.status() != QTextStream::Ok || !d->m_idx.flush())
+	{
+		qDebug() << "Can't write file" << d->m_idx.fileName()
+				 << d->m_idx.errorString();
+		return -1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 985e9a37d69103d31f1562f9778dab88e1dc0f0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:33:56 +0000
Subject: [PATCH 14/26] fix: saving a state reports write errors

---
 nbody/nbody_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..462c563 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -436,6 +436,13 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+	if(s.status() != QTextStream::Ok || !file.flush())
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 85903878d3aa6bdb8eafeab1e91e3837bed1a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:22 +0000
Subject: [PATCH 15/26] fix: malformed numbers in a Zeno file are reported
 instead of read as zero

---
 nbody/nbody_data.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 462c563..2819554 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -580,7 +580,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert mass to double" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -595,9 +601,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(&ok[0]),
+									   pos_line[1].toDouble(&ok[1]),
+									   pos_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector to double" << pos_line;
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -613,9 +625,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(&ok[0]),
+										vel_line[1].toDouble(&ok[1]),
+										vel_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector to double" << vel_line;
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From d5a8684b4dc8dabac7e49331a6516f493a2f703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:38 +0000
Subject: [PATCH 16/26] fix: a data set too large to allocate is reported by
 resize

---
 nbody/nbody_data.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2819554..6e28335 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -9,6 +9,7 @@
 #include "summation_proxy.h"
 
 #include <omp.h>
+#include <exception>
 #include <random>
 
 namespace {
@@ -154,11 +155,20 @@ void nbody_data::dump_body(size_t n)
 
 bool nbody_data::resize(size_t s)
 {
-	m_vertites.resize(s);
-	m_velosites.resize(s);
-	m_mass.resize(s);
-	m_color.resize(s);
-	m_radius.resize(s);
+	try
+	{
+		m_vertites.resize(s);
+		m_velosites.resize(s);
+		m_mass.resize(s);
+		m_color.resize(s);
+		m_radius.resize(s);
+	}
+	catch(const std::exception& e)
+	{
+		qDebug() << "Can't resize data to" << s << e.what();
+		clear();
+		return false;
+	}
 	m_count = s;
 	return true;
 }
-- 
2.43.0


From ead83574faf04478264effd5e2f5b2c4d651066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 17/26] fix: the Ahmad-Cohen engine recomputes fully when it
 has no neighbour lists yet

---
 nbody/nbody_engine_ah.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..0682428 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,8 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	if(m_full_recompute_rate == 0 || m_univerce_force.size() != m_data->get_count() ||
+	   m_data->get_step() % m_full_recompute_rate == 0)
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From 79d66c42c0e04327c5eef150962cf3b6213308de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 18/26] fix: destroying a solver that never got an engine does
 not crash

---
 nbody/nbody_solver_adams.cpp            |  7 +++++--
 nbody/nbody_solver_bulirsch_stoer.cpp   |  5 ++++-
 nbody/nbody_solver_euler.cpp            |  5 ++++-
 nbody/nbody_solver_midpoint.cpp         |  9 ++++++---
 nbody/nbody_solver_midpoint_stetter.cpp | 11 +++++++----
 nbody/nbody_solver_rk4.cpp              |  7 +++++--
 nbody/nbody_solver_rk_butcher.cpp       | 15 +++++++++------
 nbody/nbody_solver_trapeze.cpp          |  7 +++++--
 8 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index 6b267df..644a841 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -18,8 +18,11 @@ nbody_solver_adams::nbody_solver_adams(nbody_solver* starter,
 nbody_solver_adams::~nbody_solver_adams()
 {
 	delete m_starter;
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_corr_data);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_f);
+		engine()->free_buffer(m_corr_data);
+	}
 }
 
 const char* nbody_solver_adams::type_name() const
diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index 3587aed..7f92e51 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -52,7 +52,10 @@ nbody_solver_bulirsch_stoer::nbody_solver_bulirsch_stoer(
 
 nbody_solver_bulirsch_stoer::~nbody_solver_bulirsch_stoer()
 {
-	engine()->free_buffer(m_y0);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_y0);
+	}
 	delete m_extrapolator;
 	delete m_internal;
 }
diff --git a/nbody/nbody_solver_euler.cpp b/nbody/nbody_solver_euler.cpp
index 4b684f9..4a9c1be 100644
--- a/nbody/nbody_solver_euler.cpp
+++ b/nbody/nbody_solver_euler.cpp
@@ -8,7 +8,10 @@ nbody_solver_euler::nbody_solver_euler() : nbody_solver()
 
 nbody_solver_euler::~nbody_solver_euler()
 {
-	engine()->free_buffer(m_dy);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_dy);
+	}
 }
 
 const char* nbody_solver_euler::type_name() const
diff --git a/nbody/nbody_solver_midpoint.cpp b/nbody/nbody_solver_midpoint.cpp
index f1d53f3..16e251e 100644
--- a/nbody/nbody_solver_midpoint.cpp
+++ b/nbody/nbody_solver_midpoint.cpp
@@ -9,9 +9,12 @@ nbody_solver_midpoint::nbody_solver_midpoint():
 
 nbody_solver_midpoint::~nbody_solver_midpoint()
 {
-	engine()->free_buffer(m_k1);
-	engine()->free_buffer(m_k2);
-	engine()->free_buffer(m_tmp);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_k1);
+		engine()->free_buffer(m_k2);
+		engine()->free_buffer(m_tmp);
+	}
 }
 
 const char* nbody_solver_midpoint::type_name() const
diff --git a/nbody/nbody_solver_midpoint_stetter.cpp b/nbody/nbody_solver_midpoint_stetter.cpp
index 62f136d..e31fd1d 100644
--- a/nbody/nbody_solver_midpoint_stetter.cpp
+++ b/nbody/nbody_solver_midpoint_stetter.cpp
@@ -9,10 +9,13 @@ nbody_solver_midpoint_stetter::nbody_solver_midpoint_stetter() :
 
 nbody_solver_midpoint_stetter::~nbody_solver_midpoint_stetter()
 {
-	engine()->free_buffers(m_fu);
-	engine()->free_buffers(m_uv);
-	engine()->free_buffer(m_tmp);
-	engine()->free_buffer(m_du);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_fu);
+		engine()->free_buffers(m_uv);
+		engine()->free_buffer(m_tmp);
+		engine()->free_buffer(m_du);
+	}
 }
 
 const char* nbody_solver_midpoint_stetter::type_name() const
diff --git a/nbody/nbody_solver_rk4.cpp b/nbody/nbody_solver_rk4.cpp
index 62a9c7c..fc6568d 100644
--- a/nbody/nbody_solver_rk4.cpp
+++ b/nbody/nbody_solver_rk4.cpp
@@ -7,8 +7,11 @@ nbody_solver_rk4::nbody_solver_rk4() : nbody_solver()
 
 nbody_solver_rk4::~nbody_solver_rk4()
 {
-	engine()->free_buffers(m_k);
-	engine()->free_buffer(m_tmp);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_k);
+		engine()->free_buffer(m_tmp);
+	}
 }
 
 const char* nbody_solver_rk4::type_name() const
diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 79ae4e1..401a43b 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -20,12 +20,15 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 nbody_solver_rk_butcher::~nbody_solver_rk_butcher()
 {
 	delete m_bt;
-	engine()->free_buffers(m_k);;
-	engine()->free_buffer(m_t);
-	engine()->free_buffer(m_tmpk);
-	engine()->free_buffer(m_ycorr_data);
-	engine()->free_buffer(m_tcorr_data);
-	engine()->free_buffers(m_y_stack);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_k);;
+		engine()->free_buffer(m_t);
+		engine()->free_buffer(m_tmpk);
+		engine()->free_buffer(m_ycorr_data);
+		engine()->free_buffer(m_tcorr_data);
+		engine()->free_buffers(m_y_stack);
+	}
 }
 
 const char* nbody_solver_rk_butcher::type_name() const
diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index 198ff4b..e37f7ee 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -9,8 +9,11 @@ nbody_solver_trapeze::nbody_solver_trapeze() : nbody_solver()
 
 nbody_solver_trapeze::~nbody_solver_trapeze()
 {
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_predictor);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_f);
+		engine()->free_buffer(m_predictor);
+	}
 }
 
 const char* nbody_solver_trapeze::type_name() const
-- 
2.43.0


From 47d4fe0e8c6ad07bf47260f7fe679c995546819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:31 +0000
Subject: [PATCH 19/26] fix: reading a frame restores the box size

---
 nbody/nbody_data.cpp               | 5 +++++
 nbody/nbody_data.h                 | 1 +
 nbody/nbody_data_stream_reader.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 6e28335..c36eae7 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -255,6 +255,11 @@ size_t nbody_data::get_box_size() const
 	return m_box_size;
 }
 
+void nbody_data::set_box_size(size_t box_size)
+{
+	m_box_size = box_size;
+}
+
 size_t nbody_data::get_count() const
 {
 	return m_count;
diff --git a/nbody/nbody_data.h b/nbody/nbody_data.h
index 86609ad..130c7d2 100644
--- a/nbody/nbody_data.h
+++ b/nbody/nbody_data.h
@@ -56,6 +56,7 @@ public:
 	nbcolor_t* get_color();
 	const nbcolor_t* get_color() const;
 	size_t get_box_size() const;
+	void set_box_size(size_t);
 	void print_statistics(nbody_engine*);
 	void dump_body(size_t n);
 	bool resize(size_t);
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index da8119e..6a6daf4 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -328,6 +328,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
+	bdata->set_box_size(d->m_box_size);
 	if(d->m_current_frame < d->m_frames.size() - 1)
 	{
 		if(0 != seek(d->m_current_frame + 1))
-- 
2.43.0


From a319690490be13057a36aa11c4ca43ef533356a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 20/26] fix: OpenCL Barnes-Hut tree update handles any body
 count

For body counts that are not powers of two the level loop skipped inner
nodes, and launched ranges that are not multiples of the work group size.
---
 nbody/nbody_engine_opencl.cl  |  6 +++---
 nbody/nbody_engine_opencl.cpp | 13 ++++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cl b/nbody/nbody_engine_opencl.cl
index 41bc35f..e13cada 100644
--- a/nbody/nbody_engine_opencl.cl
+++ b/nbody/nbody_engine_opencl.cl
@@ -453,7 +453,7 @@ __kernel void UpdateLeafBH(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__kernel void UpdateNodeBH(int level_size,
+__kernel void UpdateNodeBH(int level_begin, int level_end,
 						   __global nbcoord_t* tree_cmx,
 						   __global nbcoord_t* tree_cmy,
 						   __global nbcoord_t* tree_cmz,
@@ -467,8 +467,8 @@ __kernel void UpdateNodeBH(int level_size,
 						   __global nbcoord_t* tree_crit_r2,
 						   nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = get_global_id(0) + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = get_global_id(0) + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..4357d69 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -107,7 +107,8 @@ typedef cl::make_kernel< cl_int, // Points count
 		cl::Buffer	//body indites
 		> UpdateLeafBH;
 
-typedef cl::make_kernel< cl_int, // Level size
+typedef cl::make_kernel< cl_int, // Level begin
+		cl_int, // Level end
 		cl::Buffer, cl::Buffer, cl::Buffer,	// mass center [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box min [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box max [x, y, z]
@@ -1046,20 +1047,22 @@ void nbody_engine_opencl::data::update_tree(
 		}
 		cl::Event::waitForEvents(events);
 	}
-	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+	// Nodes [level_end, 2 * data_size) are up to date, nodes [level_begin, level_end) depend only on them
+	for(size_t level_end = data_size; level_end > 1; level_end = (level_end + 1) / 2)
 	{
 		std::vector<cl::Event>	events;
 
 		nbcoord_t distance_to_node_radius_ratio_sqr
 			= distance_to_node_radius_ratio * distance_to_node_radius_ratio;
-		size_t		level_size = level_count / 2;
-		cl::NDRange	level_range(std::max(level_size, local_range[0]));
+		size_t		level_begin = (level_end + 1) / 2;
+		size_t		group_count = (level_end - level_begin + local_range[0] - 1) / local_range[0];
+		cl::NDRange	level_range(group_count * local_range[0]);
 		for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
 		{
 			data::devctx&	ctx(m_devices[dev_n]);
 			cl::EnqueueArgs	eargs(ctx.m_queue, level_range, local_range);
 			cl::Event		ev(
-				ctx.m_update_node_hbh(eargs, level_size,
+				ctx.m_update_node_hbh(eargs, level_begin, level_end,
 									  m_tree_cmx->buffer(dev_n),
 									  m_tree_cmy->buffer(dev_n),
 									  m_tree_cmz->buffer(dev_n),
-- 
2.43.0


From 47e8c5d4b7809c69f576668dcb5bccb95d6bd838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 21/26] fix: copying an OpenCL buffer onto itself is not an
 error

---
 nbody/nbody_engine_opencl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 4357d69..a28a000 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1284,6 +1284,11 @@ void nbody_engine_opencl::copy_buffer(memory* _a, const memory* _b)
 		qDebug() << "Size does not match";
 		return;
 	}
+	if(a == b)
+	{
+		// OpenCL does not allow overlapped copy
+		return;
+	}
 
 	if(d->is_all_in_same_context())
 	{
-- 
2.43.0


From 045b8b93b71505df3be820506d5353136dad483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:25 +0000
Subject: [PATCH 22/26] fix: OpenCL kernels do not build on OpenCL 2.x/3.x
 devices: ctz() depends on the OpenCL C version, not on the device version

---
 nbody/nbody_space_heap_func_priv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_heap_func_priv.h b/nbody/nbody_space_heap_func_priv.h
index abb36f1..8515e0d 100644
--- a/nbody/nbody_space_heap_func_priv.h
+++ b/nbody/nbody_space_heap_func_priv.h
@@ -38,7 +38,7 @@ NB_CALL_TYPE index_t next_down(index_t idx)
 	idx = (idx >> (__ffs(~idx) - 1));
 #elif defined(__GNUC__) && !defined(__OPENCL_VERSION__)
 	idx = idx >> __builtin_ctz(~idx);
-#elif __OPENCL_VERSION__ >= 200
+#elif __OPENCL_C_VERSION__ >= 200
 	idx = idx >> ctz(~idx);
 #else
 	// While index is 'right' -> go down
-- 
2.43.0


From c373fbf91072c06d6416b9f335324955fe7ea491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:25 +0000
Subject: [PATCH 23/26] fix: player colour table was read past its end for
 bodies faster than 3/4 of the velocity extent

---
 player/wgt_nbody_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index e2da9e5..e5edfe4 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -142,7 +142,7 @@ static nbcolor_t get_color(nbcoord_t x)
 	{
 		return lut[lut_len - 1];
 	}
-	x *= lut_len;
+	x *= lut_len - 1;
 
 	size_t		i = static_cast<size_t>(ceil(x));
 	nbcoord_t	w = i - x;
-- 
2.43.0


From fbfb6cdbbdbd222dbb3e180cdc97d8d1b35bebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:26 +0000
Subject: [PATCH 24/26] fix: player colour table was read out of bounds when
 all bodies are at rest

---
 player/wgt_nbody_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index e5edfe4..14f9615 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -134,7 +134,7 @@ static nbcolor_t get_color(nbcoord_t x)
 		nbcolor_t(1.0f, 0.0f, 0.0f, 1.0f)
 	};
 	size_t	lut_len = sizeof(lut) / sizeof(lut[0]);
-	if(x <= 0)
+	if(!(x > 0))
 	{
 		return lut[0];
 	}
-- 
2.43.0


From 025c5a03ec3261ed1c924f78521fa56d014caf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:55 +0000
Subject: [PATCH 25/26] fix: CUDA Barnes-Hut tree update handles any body count

For body counts that are not powers of two the level loop skipped inner
nodes, and levels that are not whole blocks lost their last nodes.
---
 nbody/nbody_engine_cuda_bh.cpp     |  7 ++++---
 nbody/nbody_engine_cuda_bh_tex.cpp |  7 ++++---
 nbody/nbody_engine_cuda_impl.cu    | 24 ++++++++++++------------
 nbody/nbody_engine_cuda_impl.h     |  4 ++--
 4 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/nbody/nbody_engine_cuda_bh.cpp b/nbody/nbody_engine_cuda_bh.cpp
index 51623a2..a270d48 100644
--- a/nbody/nbody_engine_cuda_bh.cpp
+++ b/nbody/nbody_engine_cuda_bh.cpp
@@ -151,12 +151,13 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 						   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 						   static_cast<int*>(m_dev_indites->data(dev_n)));
 			cudaDeviceSynchronize();
-			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+			// Nodes [level_end, 2 * data_size) are up to date, nodes [level_begin, level_end) depend only on them
+			for(size_t level_end = data_size; level_end > 1; level_end = (level_end + 1) / 2)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
 					= m_distance_to_node_radius_ratio * m_distance_to_node_radius_ratio;
-				size_t		level_size = level_count / 2;
-				update_node_bh(level_size,
+				size_t		level_begin = (level_end + 1) / 2;
+				update_node_bh(level_begin, level_end,
 							   static_cast<nbcoord_t*>(m_dev_tree_cmx->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_cmy->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_cmz->data(dev_n)),
diff --git a/nbody/nbody_engine_cuda_bh_tex.cpp b/nbody/nbody_engine_cuda_bh_tex.cpp
index d9014c9..bbc7a4a 100644
--- a/nbody/nbody_engine_cuda_bh_tex.cpp
+++ b/nbody/nbody_engine_cuda_bh_tex.cpp
@@ -143,12 +143,13 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 							   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 							   static_cast<int*>(m_dev_indites->data(dev_n)));
 			cudaDeviceSynchronize();
-			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+			// Nodes [level_end, 2 * data_size) are up to date, nodes [level_begin, level_end) depend only on them
+			for(size_t level_end = data_size; level_end > 1; level_end = (level_end + 1) / 2)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
 					= m_distance_to_node_radius_ratio * m_distance_to_node_radius_ratio;
-				size_t		level_size = level_count / 2;
-				update_node_bh_tex(level_size,
+				size_t		level_begin = (level_end + 1) / 2;
+				update_node_bh_tex(level_begin, level_end,
 								   static_cast<nbcoord_t*>(m_dev_tree_xyzr->data(dev_n)),
 								   static_cast<nbcoord_t*>(m_dev_bmin_cmx->data(dev_n)),
 								   static_cast<nbcoord_t*>(m_dev_bmin_cmy->data(dev_n)),
diff --git a/nbody/nbody_engine_cuda_impl.cu b/nbody/nbody_engine_cuda_impl.cu
index 0af09d5..abcc38d 100644
--- a/nbody/nbody_engine_cuda_impl.cu
+++ b/nbody/nbody_engine_cuda_impl.cu
@@ -560,7 +560,7 @@ __host__ void update_leaf_bh_tex(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__global__ void kupdate_node_bh(int level_size,
+__global__ void kupdate_node_bh(int level_begin, int level_end,
 								nbcoord_t* tree_cmx,
 								nbcoord_t* tree_cmy,
 								nbcoord_t* tree_cmz,
@@ -574,8 +574,8 @@ __global__ void kupdate_node_bh(int level_size,
 								nbcoord_t* tree_crit_r2,
 								nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
@@ -614,7 +614,7 @@ __global__ void kupdate_node_bh(int level_size,
 	tree_crit_r2[idx] = (r * r) * distance_to_node_radius_ratio_sqr;
 }
 
-__host__ void update_node_bh(int level_size,
+__host__ void update_node_bh(int level_begin, int level_end,
 							 nbcoord_t* tree_cmx,
 							 nbcoord_t* tree_cmy,
 							 nbcoord_t* tree_cmz,
@@ -628,10 +628,10 @@ __host__ void update_node_bh(int level_size,
 							 nbcoord_t* tree_crit_r2,
 							 nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	dim3 grid(std::max(1, level_size / NBODY_DATA_BLOCK_SIZE));
+	dim3 grid((level_end - level_begin + NBODY_DATA_BLOCK_SIZE - 1) / NBODY_DATA_BLOCK_SIZE);
 	dim3 block(NBODY_DATA_BLOCK_SIZE);
 
-	kupdate_node_bh <<< grid, block >>> (level_size,
+	kupdate_node_bh <<< grid, block >>> (level_begin, level_end,
 										 tree_cmx, tree_cmy, tree_cmz,
 										 bmin_cmx, bmin_cmy, bmin_cmz,
 										 bmax_cmx, bmax_cmy, bmax_cmz,
@@ -641,7 +641,7 @@ __host__ void update_node_bh(int level_size,
 }
 
 // Update node coordinates (Barnes-Hut engine) texture storage mode
-__global__ void kupdate_node_bh_tex(int level_size,
+__global__ void kupdate_node_bh_tex(int level_begin, int level_end,
 									nbcoord_t* tree_xyzr,
 									nbcoord_t* bmin_cmx,
 									nbcoord_t* bmin_cmy,
@@ -652,8 +652,8 @@ __global__ void kupdate_node_bh_tex(int level_size,
 									nbcoord_t* tree_mass,
 									nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
@@ -692,7 +692,7 @@ __global__ void kupdate_node_bh_tex(int level_size,
 	tree_xyzr[4 * idx + 3] = (r * r) * distance_to_node_radius_ratio_sqr;
 }
 
-__host__ void update_node_bh_tex(int level_size,
+__host__ void update_node_bh_tex(int level_begin, int level_end,
 								 nbcoord_t* tree_xyzr,
 								 nbcoord_t* bmin_cmx,
 								 nbcoord_t* bmin_cmy,
@@ -703,10 +703,10 @@ __host__ void update_node_bh_tex(int level_size,
 								 nbcoord_t* tree_mass,
 								 nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	dim3 grid(std::max(1, level_size / NBODY_DATA_BLOCK_SIZE));
+	dim3 grid((level_end - level_begin + NBODY_DATA_BLOCK_SIZE - 1) / NBODY_DATA_BLOCK_SIZE);
 	dim3 block(NBODY_DATA_BLOCK_SIZE);
 
-	kupdate_node_bh_tex <<< grid, block >>> (level_size, tree_xyzr,
+	kupdate_node_bh_tex <<< grid, block >>> (level_begin, level_end, tree_xyzr,
 											 bmin_cmx, bmin_cmy, bmin_cmz,
 											 bmax_cmx, bmax_cmy, bmax_cmz,
 											 tree_mass, distance_to_node_radius_ratio_sqr);
diff --git a/nbody/nbody_engine_cuda_impl.h b/nbody/nbody_engine_cuda_impl.h
index bcdd93e..4dc45ca 100644
--- a/nbody/nbody_engine_cuda_impl.h
+++ b/nbody/nbody_engine_cuda_impl.h
@@ -61,7 +61,7 @@ __host__ void update_leaf_bh(int points_count,
 							 nbcoord_t* bmax_cmy,
 							 nbcoord_t* bmax_cmz,
 							 const int* body_n);
-__host__ void update_node_bh(int level_size,
+__host__ void update_node_bh(int level_begin, int level_end,
 							 nbcoord_t* tree_cmx,
 							 nbcoord_t* tree_cmy,
 							 nbcoord_t* tree_cmz,
@@ -84,7 +84,7 @@ __host__ void update_leaf_bh_tex(int points_count,
 								 nbcoord_t* bmax_cmy,
 								 nbcoord_t* bmax_cmz,
 								 const int* body_n);
-__host__ void update_node_bh_tex(int level_size,
+__host__ void update_node_bh_tex(int level_begin, int level_end,
 								 nbcoord_t* tree_xyzr,
 								 nbcoord_t* bmin_cmx,
 								 nbcoord_t* bmin_cmy,
-- 
2.43.0


From d31f18d763ec01024e22f361cfa5f38d35ff4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:19 +0000
Subject: [PATCH 26/26] fix: CUDA devices exchange the state only after their
 kernels finished

Copies between devices run in a stream of one of them and do not wait for
kernels of the other one, e.g. clamp() or copy_buffer() of the whole buffer.
---
 nbody/nbody_engine_cuda.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nbody/nbody_engine_cuda.cpp b/nbody/nbody_engine_cuda.cpp
index aaac309..026f34c 100644
--- a/nbody/nbody_engine_cuda.cpp
+++ b/nbody/nbody_engine_cuda.cpp
@@ -58,6 +58,14 @@ struct nbody_engine_cuda::data
 			CUDACHECK(cudaStreamSynchronize(m_streams[i]));
 		}
 	}
+	void device_sync()
+	{
+		for(size_t i = 0; i < m_device_ids.size(); ++i)
+		{
+			CUDACHECK(cudaSetDevice(m_device_ids[i]));
+			CUDACHECK(cudaDeviceSynchronize());
+		}
+	}
 };
 
 nbody_engine_cuda::nbody_engine_cuda() :
@@ -622,6 +630,8 @@ void nbody_engine_cuda::synchronize_y(smemory* y)
 	{
 		return;
 	}
+	// Kernels running on other devices may still use their part of y
+	d->device_sync();
 #ifdef HAVE_NCCL
 	if(d->m_nccl_is_active)
 	{
-- 
2.43.0

