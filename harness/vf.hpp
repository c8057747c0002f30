// Monitoring framework shared by every harness.
//
// A harness is a set of scenarios. A case is (scenario, random stream derived
// from seed and case number); it drives the real library and passes what it
// observes to monitors (vf::ok / vf::fail / vf::total). Cases run in forked
// workers, so that an abort, a segmentation fault or a hang of the code under
// observation is itself an observed event, attributed to the operation that
// was announced with vf::at().
#ifndef VERIF_VF_HPP
#define VERIF_VF_HPP
#include <cfenv>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fstream>
#include <new>
#include <gmp.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {

class Rng {
    uint64_t s;
  public:
    explicit Rng(uint64_t seed) : s(seed) { for (int i=0;i!=4;++i) u64(); }
    uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    long range(long a, long b) { return a + static_cast<long>(below(static_cast<uint64_t>(b - a + 1))); }  // inclusive
    bool coin(int num=1, int den=2) { return below(static_cast<uint64_t>(den)) < static_cast<uint64_t>(num); }
    template<class C> auto const& pick(C const& c) { return c[below(c.size())]; }
    template<class T> T const& pick(std::initializer_list<T> const& c) { return *(c.begin() + below(c.size())); }
};

struct Viol { uint64_t count = 0, cse = 0; std::string detail; };

struct Results {
    std::map<std::string,uint64_t> events;
    std::map<std::string,Viol> viols;
    std::map<std::string,uint64_t> notes;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
};

struct Shared { volatile uint64_t cse; char label[1024]; };

inline Results& res() { static Results r; return r; }
inline Shared*& shm() { static Shared* s = nullptr; return s; }
inline uint64_t& curcase() { static uint64_t c = 0; return c; }
inline std::string& curscen() { static std::string s; return s; }

inline uint64_t hash(std::string const& s) { uint64_t h=1469598103934665603ull; for (unsigned char c : s) { h^=c; h*=1099511628211ull; } return h; }

// Watching the hardware rounding mode (VF_FENV=nearest: cases start in the default mode; any: in each mode in turn).
struct Fenv { bool on=false, any=false; int mode=FE_TONEAREST; Fenv() { char const* e=getenv("VF_FENV"); if (e) { on=true; any=std::string(e)=="any"; } } };
inline Fenv& fenv() { static Fenv f; return f; }
inline void watch_fenv();

// Announce the operation about to run; a crash or a hang is attributed to it.
inline void at(std::string const& label) {
    if (fenv().on) watch_fenv();
    if (shm()) { size_t n = std::min(label.size(), sizeof(shm()->label)-1); memcpy(shm()->label, label.data(), n); shm()->label[n]=0; }
}
inline std::string label() { return shm() ? std::string(shm()->label) : std::string(); }

inline void fail(std::string const& key, std::string const& detail) {
    auto& v = res().viols[key];
    if (v.count++ == 0) { v.cse = curcase(); v.detail = detail.substr(0, 3000); }
}
inline void watch_fenv() {
    Fenv& f = fenv(); int m = fegetround(); std::string key = "rounding-mode/" + curscen() + "/" + label(); ++res().events[key];
    if (m!=f.mode) { fesetround(f.mode); fail(key, "rounding mode " + std::to_string(m) + " left behind instead of " + std::to_string(f.mode) + " (hex 0 nearest, 400 down, 800 up, c00 zero)"); }
}
// One monitored event: the oracle looked at one observation.
inline bool ok(std::string const& key, bool cond, std::function<std::string()> const& detail = {}) {
    ++res().events[key];
    if (fenv().on) watch_fenv();
    if (!cond) fail(key, detail ? detail() : std::string());
    return cond;
}
inline void note(std::string const& key, uint64_t n = 1) { res().notes[key] += n; }
// A distinct, non-trivial observed state (input class, outcome class, ...).
inline void distinct(std::string const& s) { if (res().distinct.size() < 200000) res().distinct.insert(hash(s)); }
inline void sample(std::function<std::string()> const& f) { if (res().samples.size() < 3) res().samples.push_back(f().substr(0, 600)); }

template<class... A> std::string cat(A const&... a) { std::ostringstream os; os.precision(17); (os << ... << a); return os.str(); }

// Run an operation that is total on the input given: an exception is a violation.
template<class F> bool total(std::string const& key, F const& f, std::function<std::string()> const& detail = {}) {
    at(key);
    try { f(); return true; }
    catch (std::exception const& e) { ++res().events[key+"/throws"]; fail(key+"/throws", cat(detail?detail():std::string(), " threw ", e.what())); }
    catch (...) { ++res().events[key+"/throws"]; fail(key+"/throws", cat(detail?detail():std::string(), " threw a non-standard exception")); }
    return false;
}
// Run an operation that may refuse: an exception is noted.
template<class F> bool partial(std::string const& key, F const& f) {
    at(key);
    try { f(); return true; }
    catch (std::exception const&) { note("refused:"+key); }
    catch (...) { note("refused:"+key); }
    return false;
}

struct Scenario { std::string name; unsigned weight; std::function<void(Rng&)> run; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Reg { Reg(char const* n, unsigned w, std::function<void(Rng&)> f) { scenarios().push_back({n,w,f}); } };
#define VF_CAT2(a,b) a##b
#define VF_CAT(a,b) VF_CAT2(a,b)
#define VF_SCENARIO(NAME,WEIGHT) \
    static void VF_CAT(scen_,NAME)(vf::Rng& r); static vf::Reg VF_CAT(reg_,NAME)(#NAME,WEIGHT,VF_CAT(scen_,NAME)); \
    static void VF_CAT(scen_,NAME)([[maybe_unused]] vf::Rng& r)

inline std::string one_line(std::string const& s) {
    std::string o; for (unsigned char c : s) { o += (c=='\n'||c=='\t'||c=='\r') ? ' ' : (c<32||c>126) ? '?' : char(c); } return o;
}

inline void write_results(int fd) {
    std::ostringstream os; Results& r = res();
    for (auto& e : r.events) os << "E\t" << e.second << "\t" << e.first << "\n";
    for (auto& e : r.notes) os << "N\t" << e.second << "\t" << e.first << "\n";
    for (auto& e : r.viols) os << "V\t" << e.second.count << "\t" << e.second.cse << "\t" << e.first << "\t" << one_line(e.second.detail) << "\n";
    for (auto& e : r.distinct) os << "D\t" << e << "\n";
    for (auto& e : r.samples) os << "S\t" << one_line(e) << "\n";
    os << "OK\n";
    std::string s = os.str(); size_t p = 0;
    while (p < s.size()) { ssize_t n = write(fd, s.data()+p, s.size()-p); if (n<=0) _exit(97); p += static_cast<size_t>(n); }
}

inline void merge(std::string const& text) {
    Results& r = res(); std::istringstream is(text); std::string line;
    while (std::getline(is,line)) {
        std::istringstream ls(line); std::string t, a, b, c, d;
        std::getline(ls,t,'\t');
        if (t=="E") { std::getline(ls,a,'\t'); std::getline(ls,b); r.events[b]+=std::stoull(a); }
        else if (t=="N") { std::getline(ls,a,'\t'); std::getline(ls,b); r.notes[b]+=std::stoull(a); }
        else if (t=="D") { std::getline(ls,a); if (r.distinct.size()<400000) r.distinct.insert(std::stoull(a)); }
        else if (t=="S") { std::getline(ls,a); if (r.samples.size()<12) r.samples.push_back(a); }
        else if (t=="V") { std::getline(ls,a,'\t'); std::getline(ls,b,'\t'); std::getline(ls,c,'\t'); std::getline(ls,d);
            auto& v=r.viols[c]; if (v.count==0) { v.cse=std::stoull(b); v.detail=d; } v.count+=std::stoull(a); }
    }
}

// CPU seconds after which a case counts as a hang.
inline int& hang_seconds() { static int s = 100; return s; }
// Called once per worker, before any case (harnesses may replace).
inline std::function<void()>& worker_init() { static std::function<void()> f; return f; }

inline void run_case(uint64_t seed, uint64_t c, std::vector<size_t> const& wheel) {
    curcase() = c; if (shm()) { shm()->cse = c; }
    Scenario& s = scenarios()[wheel[c % wheel.size()]];
    if (fenv().on) { static const int modes[4]={FE_TONEAREST,FE_DOWNWARD,FE_UPWARD,FE_TOWARDZERO}; fenv().mode = fenv().any ? modes[hash(std::to_string(c))%4] : FE_TONEAREST; fesetround(fenv().mode); }
    curscen() = s.name; at(s.name);
    struct itimerval tv; memset(&tv,0,sizeof tv); tv.it_value.tv_sec = hang_seconds(); setitimer(ITIMER_PROF,&tv,nullptr);
    Rng r(seed*0x9E3779B97F4A7C15ull ^ (c*0xD1B54A32D192ED03ull + 0x1234567ull) ^ hash(s.name));
    try { s.run(r); note("scenario:"+s.name); }
    catch (std::exception const& e) { std::string k=label()+"/escaped-exception"; ++res().events[k]; fail(k, e.what()); }
    catch (...) { std::string k=label()+"/escaped-exception"; ++res().events[k]; fail(k, "non-standard"); }
    if (fenv().on) { watch_fenv(); fesetround(FE_TONEAREST); }
}

// Live blocks, from operator new and from GMP/MPFR; a computation repeated once more must not hold more of them.
inline long& live_blocks() { static long n=0; return n; }
#ifndef __SANITIZE_ADDRESS__
inline void count_gmp() {
    mp_set_memory_functions([](size_t n)->void* { __atomic_fetch_add(&live_blocks(),1,__ATOMIC_RELAXED); void* p=malloc(n?n:1); if(!p) abort(); return p; },
        [](void* p, size_t, size_t n)->void* { void* q=realloc(p,n?n:1); if(!q) abort(); return q; },
        [](void* p, size_t) { __atomic_fetch_sub(&live_blocks(),1,__ATOMIC_RELAXED); free(p); });
}
#else
inline void count_gmp() { }
#endif
inline bool& leak_mode() { static bool b=getenv("VF_LEAK")!=nullptr; return b; }
inline void run_case_leaks(uint64_t seed, uint64_t c, std::vector<size_t> const& wheel) {
    run_case(seed,c,wheel); run_case(seed,c,wheel);
    long grew[4]; for (int k=0;k<4;++k) { long b=live_blocks(); run_case(seed,c,wheel); grew[k]=live_blocks()-b; }
    std::string key=curscen()+"/leak"; at(key);
    long least=grew[0]; for (long g:grew) least=std::min(least,g);
    ok(key,least<=0,[&]{ return cat("repeating case ",c," leaves ",grew[0],",",grew[1],",",grew[2],",",grew[3]," more blocks each time"); });
    note("blocks:counted",static_cast<uint64_t>(std::max(0l,live_blocks())));
}

inline int main_(int argc, char** argv) {
    uint64_t seed=1, cases=1000, shard=0, nshards=1, chunk=200, limit_s=600; long one=-1; std::string out, only;
    for (int i=1;i+1<argc;i+=2) { std::string a=argv[i], v=argv[i+1];
        if (a=="--seed") seed=std::stoull(v); else if (a=="--cases") cases=std::stoull(v); else if (a=="--shard") shard=std::stoull(v);
        else if (a=="--nshards") nshards=std::stoull(v); else if (a=="--out") out=v; else if (a=="--case") one=std::stol(v);
        else if (a=="--only") only=v; else if (a=="--chunk") chunk=std::stoull(v); else if (a=="--hang") hang_seconds()=std::stoi(v); else if (a=="--limit") limit_s=std::stoull(v);
        else { fprintf(stderr,"bad argument %s\n",a.c_str()); return 2; } }
    std::vector<size_t> wheel;
    for (size_t i=0;i!=scenarios().size();++i) for (unsigned k=0;k!=scenarios()[i].weight;++k) if (only.empty()||scenarios()[i].name==only) wheel.push_back(i);
    // interleave deterministically
    { Rng r(42); for (size_t i=wheel.size();i>1;--i) std::swap(wheel[i-1],wheel[r.below(i)]); }
    if (wheel.empty()) { fprintf(stderr,"no scenario\n"); return 2; }
    shm() = static_cast<Shared*>(mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0));
    if (one>=0) { if (worker_init()) worker_init()(); if (leak_mode()) run_case_leaks(seed,static_cast<uint64_t>(one),wheel); else run_case(seed,static_cast<uint64_t>(one),wheel);
        for (auto& e : res().events) printf("event %s x%llu\n", e.first.c_str(), (unsigned long long)e.second);
        for (auto& v : res().viols) printf("VIOLATED %s: %s\n", v.first.c_str(), v.second.detail.c_str());
        return res().viols.empty()?0:1; }
    std::vector<uint64_t> mine; for (uint64_t c=shard;c<cases;c+=nshards) mine.push_back(c);
    struct timeval t0; gettimeofday(&t0,nullptr);
    uint64_t done=0, crashes=0; bool truncated=false;
    for (size_t p=0;p<mine.size();) {
        struct timeval t1; gettimeofday(&t1,nullptr);
        if (uint64_t(t1.tv_sec-t0.tv_sec)>limit_s) { truncated=true; break; }
        if (crashes>60) { truncated=true; break; }
        size_t e=std::min(p+chunk,mine.size());
        auto attempt=[&](size_t b, size_t en, std::string& text)->int {
            int fd[2]; if (pipe(fd)) return -1;
            fflush(nullptr);
            pid_t pid=fork();
            if (pid==0) { close(fd[0]); res()=Results();
                // what the library writes to its own streams is not ours to show
                int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if (getenv("VF_SANITIZE")) { int df=open((out+".err").c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); dup2(df,2); } else if(!getenv("VF_STDERR")) dup2(dn,2);
                if (worker_init()) worker_init()();
                for (size_t i=b;i<en;++i) { if (leak_mode()) run_case_leaks(seed,mine[i],wheel); else run_case(seed,mine[i],wheel); }
                write_results(fd[1]); _exit(0); }
            close(fd[1]); char buf[65536]; ssize_t n; while ((n=read(fd[0],buf,sizeof buf))>0) text.append(buf,static_cast<size_t>(n)); close(fd[0]);
            int st=0; waitpid(pid,&st,0); return st; };
        while (p<e) {
            std::string text; int st=attempt(p,e,text);
            if (WIFEXITED(st)&&WEXITSTATUS(st)==0&&text.size()>=3&&text.compare(text.size()-3,3,"OK\n")==0) { merge(text); done+=e-p; p=e; break; }
            uint64_t cc=shm()->cse; std::string lb=shm()->label; ++crashes;
            size_t k=p; while (k<e && mine[k]!=cc) ++k;
            if (k>=e) { fprintf(stderr,"lost worker\n"); return 2; }
            std::string kind = WIFSIGNALED(st) ? (WTERMSIG(st)==SIGPROF?"hang":WTERMSIG(st)==SIGABRT?"abort":WTERMSIG(st)==SIGSEGV?"segv":WTERMSIG(st)==SIGFPE?"fpe":WTERMSIG(st)==SIGKILL?"killed":cat("signal",WTERMSIG(st))) : cat("exit",WEXITSTATUS(st));
            std::string what; if (kind=="exit66") { kind="sanitizer"; std::ifstream es(out+".err"); std::string l; while (std::getline(es,l)) if (l.find("runtime error:")!=l.npos||l.find("ERROR: AddressSanitizer")!=l.npos||l.find("WARNING: ThreadSanitizer")!=l.npos||l.find("SUMMARY:")!=l.npos||(what.size()<500&&l.find(" /")!=l.npos&&l.find("source/")!=l.npos)) what+=" | "+l; what=what.substr(0,900); }
            if (kind=="killed") { fprintf(stderr,"worker killed (memory?) in %s\n",lb.c_str()); return 2; }
            if (k>p) { std::string t2; int s2=attempt(p,k,t2); if (WIFEXITED(s2)&&WEXITSTATUS(s2)==0) { merge(t2); done+=k-p; } }
            curcase()=cc; ++res().events[lb+"/"+kind]; fail(lb+"/"+kind, cat("case ",cc," of scenario ",scenarios()[wheel[cc%wheel.size()]].name," ended by ",kind," in ",lb,what));
            ++done; p=k+1;
        }
    }
    FILE* f=fopen(out.c_str(),"w"); if(!f) return 2;
    int fd=fileno(f); ++res().notes["cases-run"]; res().notes["cases-run"]=done; if (truncated) res().notes["truncated"]=1;
    Results& r=res(); (void)r;
    write_results(fd); fclose(f);
    return 0;
}
} // namespace vf
#ifndef VF_NO_MAIN
#ifndef __SANITIZE_ADDRESS__
void* operator new(std::size_t n) { __atomic_fetch_add(&vf::live_blocks(),1,__ATOMIC_RELAXED); void* p=std::malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) { __atomic_fetch_sub(&vf::live_blocks(),1,__ATOMIC_RELAXED); std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { __atomic_fetch_sub(&vf::live_blocks(),1,__ATOMIC_RELAXED); std::free(p); } }
#endif
int main(int argc, char** argv) { vf::count_gmp(); return vf::main_(argc,argv); }
#endif
#endif
