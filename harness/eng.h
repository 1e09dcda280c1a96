#ifndef ENG_H
#define ENG_H
// engines by number, with parameters that make the approximate ones exact
static const char* ENG[] = {"simple", "openmp", "block", "ah", "simple_bh", "opencl", "opencl_bh", "cuda", "cuda_bh", "cuda_bh_tex"};
static const char* GPU[] = {"0", "0,1", "1,0", "0,1,2,3", "0,0"};
static const char* DEV[] = {"0:0", "0:0,0", "0:0;0:0", "0:0,0,0,0", "0:0,0;0:0,0"};
inline nbody_engine* make_engine(int eng, QVariantMap p = QVariantMap())
{
	p.insert("engine", ENG[eng]);
	if(eng == 3) { if(!p.contains("full_recompute_rate")) p.insert("full_recompute_rate", 5); if(!p.contains("max_dist")) p.insert("max_dist", 1e9); if(!p.contains("min_force")) p.insert("min_force", 0); }
	if(eng >= 5)
	{
		if(!p.contains("device")) p.insert("device", eng >= 7 ? GPU[sym_param("dev", 0)] : DEV[sym_param("dev", 0)]); if(eng >= 7 && sym_param("nccl", 0)) p.insert("use_nccl", true);
		if(!p.contains("block_size")) p.insert("block_size", (int)sym_param("bs", 2));
		if(sym_param("verbose", 0)) { p.insert("verbose", 1); p.insert("oclprof", 1); }
	}
	return nbody_create_engine(p);
}
#endif
