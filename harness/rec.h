// Recordings: playing through the library, reference encoders and decoders.
#pragma once
#include "engine.h"
#include <sys/time.h>
typedef int64_t i64;
typedef struct TTYRecRecorder *Recorder;
struct LFrame { struct timeval t; int len; char *data; };     // what the library calls ttyrec_frame
typedef struct TTYRec *TRec;
extern "C" {
int open_stream(int fd,const char *url,int mode,const char **error);
const char *ttyrec_w_find_format(const char*,const char*,const char*);
Recorder ttyrec_w_open(int,const char*,const char*,const struct timeval*);
int ttyrec_w_write(Recorder,const struct timeval*,const char*,int);
int ttyrec_w_close(Recorder);
const char *ttyrec_w_get_format_name(int); const char *ttyrec_w_get_format_ext(const char*);
const char *ttyrec_r_find_format(const char*,const char*,const char*);
const char *ttyrec_r_get_format_name(int); const char *ttyrec_r_get_format_ext(const char*);
int ttyrec_r_play(int,const char*,const char*,void(*)(const struct timeval*,void*),void(*)(const struct timeval*,void*),void(*)(const char*,int,void*),void*);
}
#define SM_READ 0
#define SM_WRITE 1
#define SM_REPREAD 2
#define SM_APPEND 3

struct Ev { int k; i64 s,us; std::string d; };               // 0 start, 1 wait, 2 print
struct Trace { std::vector<Ev> ev; int ret=0; u64 bytes=0; };
// calls ttyrec_r_play; checks the form of every callback
Trace play(int fd,const char *format,const char *name);
// what a viewer sees: data at points of time (microseconds since the start)
struct Norm { bool started=false; i64 start=0; std::vector<std::pair<i64,std::string>> seg; i64 end=0; std::string data() const; };
Norm norm(const Trace&);
std::string normdiff(const Norm &got,const Norm &want,bool timing=true,i64 tol=0);  // empty if the same
std::string show(const Norm&);

struct Frame { i64 t; std::string d; };                      // t: microseconds, absolute
Norm expect(i64 start,const std::vector<Frame>&,i64 first);  // frames at t-first
struct timeval tv(i64 us);

// files
std::string tmpname(const char *suffix);                     // a fresh name in the scratch directory
void put_file(const std::string &name,const std::string &data);
std::string get_file(const std::string &name);
bool file_exists(const std::string &name);
int mem_fd(const std::string &data);                         // descriptor of a file with this content, at its start
std::string read_all(int fd);                                // until end of file
int nfds(); int nthreads();
bool wait_threads(double sec=20);                            // until only the calling thread is left

// compression, by the reference libraries: 0 gzip, 1 bzip2, 2 xz, 3 zstd
extern const char *comp_ext[4];
std::string compress_ref(int kind,const std::string &d,int level);
// decodes all members; ok: whole and undamaged. Returns what could be decoded.
std::string decompress_ref(int kind,const std::string &d,bool *ok);

// data for frames
std::string gen_data(Src &s,int big);                        // any bytes; big: percentage of frames beyond internal buffers
std::string gen_text(Src &s,int pieces);                     // valid UTF-8 with controls, quotes...
std::vector<Frame> gen_frames(Src &s,bool text,int avg,int max,int big,i64 t0,bool zero_ok=true);
i64 gen_delay(Src &s);

// encoders; if given, ends gets the offset after every frame
std::string enc_ttyrec(const std::vector<Frame>&,std::vector<size_t> *ends=0);
std::string enc_nh(const std::vector<Frame>&,i64 start,std::vector<size_t> *ends=0);
struct CastStyle { int version=2; int sx=80,sy=25; i64 ts=0; int fancy=0; };
std::string enc_cast(Src &s,const CastStyle&,const std::vector<Frame>&,i64 start,std::vector<size_t> *ends=0);
std::string json_str(Src &s,const std::string &utf8,int fancy);
void is_content(const std::string &d,bool *ttyrec,bool *cast);  // what auto-detection is documented to recognise
// DosRecorder
struct DosFrame { u32 delay; u8 sscr,dscr; struct Chunk { int pos; std::vector<std::pair<u8,u8>> c; }; std::vector<Chunk> ch; bool note=false; int w=0,h=0,x=0,y=0; std::string title; std::vector<std::pair<u8,u8>> box; };
std::string enc_dos(const DosFrame&);
DosFrame gen_dos(Src &s);

// JSON
struct Json { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t=NUL; bool b=false; std::string s; std::vector<Json> a; std::vector<std::pair<std::string,Json>> o; const Json *get(const char *k) const { for (auto &p:o) if (p.first==k) return &p.second; return 0; } };
// strict; returns false and a message if it's not exactly one valid value
bool json_parse(const std::string &text,Json &out,std::string &err);
bool valid_utf8(const std::string&);
