// plotcheck [--ref] [--noeval] [--pmax BITS] file...   one JSON object per file on stdout
#include "plotfile.hpp"
#include <cstdlib>
#include <memory>
using namespace ref;

static std::string esc(const std::string& s) { std::string o; for(char c : s) { if(c == '"' || c == '\\') o += '\\'; o += c; } return o; }
static std::string hex(const uint8_t* p, size_t n) { std::string s; char t[3]; for(size_t i = 0; i < n; ++i) { snprintf(t, 3, "%02x", p[i]); s += t; } return s; }

template<typename V>
static void compare(PlotFile& p, const std::string& key, const std::string& what, const V& have, const V& want) {
	if(have == want) return;
	size_t i = 0, j = 0, missing = 0, extra = 0;
	while(i < have.size() || j < want.size()) {
		if(j >= want.size() || (i < have.size() && have[i] < want[j])) { extra++; i++; }
		else if(i >= have.size() || want[j] < have[i]) { missing++; j++; }
		else { i++; j++; }
	}
	if(missing) p.err("complete:missing:" + key, what + ": " + std::to_string(missing) + " of " + std::to_string(want.size()) + " missing");
	if(extra) p.err("complete:extra:" + key, what + ": " + std::to_string(extra) + " that should not exist");
}

int main(int argc, char** argv) {
	bool use_ref = false, eval = true;
	int pmax = 0;
	std::unique_ptr<Plot> rp; std::string rkey;
	for(int a = 1; a < argc; ++a) {
		if(!strcmp(argv[a], "--ref")) { use_ref = true; continue; }
		if(!strcmp(argv[a], "--noeval")) { eval = false; continue; }
		if(!strcmp(argv[a], "--pmax")) { pmax = atoi(argv[++a]); continue; }
		PlotFile p;
		bool decoded = p.load(argv[a]) && p.decode();
		Evaluated ev;
		size_t nproof = 0;
		bool reffed = false, unlimited = false;
		uint64_t lost = 0, full = 0;
		if(decoded && eval) {
			evaluate(p, ev);
			nproof = p.p7.size();
			bool bad = false;
			for(auto& e : p.errs) if(e.key == "sound:backref") bad = true;
			if(pmax) {
				// a build with narrow positions: exactly what the definition gives when positions from 2^pmax on are dropped
				const uint64_t lim = uint64_t(1) << pmax;
				p.errs.clear();
				Plot a; forward(p.id, p.k, a, lim);
				reffed = !a.ambiguous;
				lost = a.lost; full = a.t[7].size();
				if(!a.ambiguous && bad) p.err("limit:backref", "a stored entry refers outside its neighbour table");
				if(!a.ambiguous && !bad) {
					auto judge = [&](Plot& r, uint64_t m) {
						for(int t = 2; t <= 6; ++t) {
							auto h = ev.h[t]; std::sort(h.begin(), h.end());
							compare(p, "table" + std::to_string(t), "table " + std::to_string(t) + " entries", h, r.pruned[t]);
						}
						std::vector<std::pair<uint64_t, uint64_t>> pr;
						for(size_t i = 0; i < p.p7.size(); ++i) {
							if(p.p7[i] >= ev.h[7].size()) { p.err("limit:p7", "final entry outside table 7"); continue; }
							pr.push_back({p.f7[i] == ~uint64_t(0) ? ev.y7[p.p7[i]] : p.f7[i], ev.h[7][p.p7[i]]});
						}
						std::sort(pr.begin(), pr.end());
						const size_t want = std::min<uint64_t>(m, r.proofs.size());
						if(pr.size() != want || ev.h[7].size() != want)
							p.err("limit:count", std::to_string(pr.size()) + " final entries and " + std::to_string(ev.h[7].size()) + " table 7 entries instead of " + std::to_string(want));
						if(!std::includes(r.proofs.begin(), r.proofs.end(), pr.begin(), pr.end())) p.err("limit:foreign", "a proof that should not exist");
					};
					judge(a, lim);
					if(!p.errs.empty()) {		// is the limit in force at all?
						auto keep = p.errs; p.errs.clear();
						Plot b; forward(p.id, p.k, b);
						judge(b, ~uint64_t(0));
						if(p.errs.empty() && (a.lost || full > lim)) { reffed = false; unlimited = true; } else p.errs = keep;
					}
				}
			}
			else if(use_ref && !bad && p.errs.size() < 40) {
				std::string key = hex(p.id, 32) + std::to_string(p.k);
				if(key != rkey) { rp.reset(new Plot); forward(p.id, p.k, *rp); rkey = key; }
				reffed = true;
				for(int t = 2; t <= 7; ++t) {
					auto h = ev.h[t]; std::sort(h.begin(), h.end());
					compare(p, "table" + std::to_string(t), "table " + std::to_string(t) + " entries", h, rp->pruned[t]);
				}
				std::vector<std::pair<uint64_t, uint64_t>> pr;
				for(size_t i = 0; i < p.p7.size(); ++i) {
					uint64_t q = p.p7[i];
					if(q >= ev.h[7].size()) continue;
					pr.push_back({p.f7[i] == ~uint64_t(0) ? ev.y7[q] : p.f7[i], ev.h[7][q]});
				}
				std::sort(pr.begin(), pr.end());
				compare(p, "proofs", "proofs", pr, rp->proofs);
			}
		}
		printf("{\"file\":\"%s\",\"size\":%llu,\"decoded\":%s,\"ref\":%s,\"k\":%d,\"id\":\"%s\",\"memo\":\"%s\",\"c3_tail\":%s,\"lost\":%llu,\"full7\":%llu,\"unlimited\":%s,\"n7\":%zu,\"proofs\":%zu,\"counts\":[",
			esc(argv[a]).c_str(), (unsigned long long)p.size, decoded ? "true" : "false", reffed ? "true" : "false", p.k,
			hex(p.id, 32).c_str(), hex(p.memo.data(), p.memo.size()).c_str(), p.c3_tail ? "true" : "false",
			(unsigned long long)lost, (unsigned long long)full, unlimited ? "true" : "false", p.p7.size(), nproof);
		for(int t = 1; t <= 6; ++t) printf("%s%zu", t > 1 ? "," : "", p.lp[t].size());
		printf("],\"digest\":\"%016llx\",\"digest_body\":\"%016llx\",\"errors\":[",
			decoded ? (unsigned long long)p.digest(true) : 0, decoded ? (unsigned long long)p.digest(false) : 0);
		for(size_t i = 0; i < p.errs.size(); ++i) printf("%s{\"key\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", esc(p.errs[i].key).c_str(), esc(p.errs[i].msg).c_str());
		printf("]}\n");
		fflush(stdout);
	}
}
