// helpers shared by the phase level harnesses
#pragma once
#include "hx.hpp"
#include <chia/chia.h>
#include <chia/DiskSort.hpp>
#include <chia/DiskTable.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <algorithm>

template<typename T>
struct Collector : Processor<std::pair<std::vector<T>, size_t>> {
	std::vector<T> all;
	std::vector<std::pair<size_t, size_t>> blocks;		// (announced offset, size), in order of delivery
	std::mutex m;
	void take(std::pair<std::vector<T>, size_t>& d) override {
		std::lock_guard<std::mutex> l(m);
		blocks.emplace_back(d.second, d.first.size());
		all.insert(all.end(), d.first.begin(), d.first.end());
	}
	bool offsets_ok() const { size_t o = 0; for(auto& b : blocks) { if(b.first != o) return false; o += b.second; } return true; }
};

inline std::string scratch() { const char* s = getenv("VERIF_SCRATCH_DIR"); return std::string(s ? s : "/tmp") + "/"; }
inline bool exists(const std::string& f) { struct stat st; return !stat(f.c_str(), &st); }
inline std::vector<std::string> listdir(const std::string& d) {
	std::vector<std::string> r;
	if(DIR* p = opendir(d.c_str())) { while(auto* e = readdir(p)) if(e->d_name[0] != '.') r.push_back(e->d_name); closedir(p); }
	std::sort(r.begin(), r.end());
	return r;
}
// the phases report on stdout; keep it out of the way
struct Quiet { Quiet() { if(!freopen("/dev/null", "w", stdout)) {} } };
