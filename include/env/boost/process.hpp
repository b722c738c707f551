// Stand-in for boost::process: a child process is an arbitrary outcome chosen by the harness.
#pragma once
#include <string>
#include <vector>
#include <stdexcept>
#include <system_error>
int vf_run_external(const std::string&cmd); // exit code; throws when the program cannot be started
namespace boost { namespace process {
  struct process_error : public std::runtime_error { explicit process_error(const std::string&s):std::runtime_error(s){} };
  inline int vf_spawn(const std::string&c){ int r=vf_run_external(c); if(r<0) throw process_error("execve failed"); return r; }
  struct child { int rc=0; bool ok=true; child(){}
    explicit child(const std::string&c):rc(vf_spawn(c)){} explicit child(const char*c):rc(vf_spawn(c)){}
    template<class...A> child(const std::string&c,A&&...):rc(vf_spawn(c)){}
    template<class...A> child(const std::string&c,std::error_code&ec,A&&...){ rc=vf_run_external(c); if(rc<0){ ok=false; ec=std::make_error_code(std::errc::no_such_file_or_directory);} }
    void wait(){} void wait(std::error_code&){} void join(){} bool joinable()const{return true;} bool valid()const{return ok;} bool running(){return false;} void detach(){} void terminate(){} int exit_code()const{return rc;} int native_exit_code()const{return rc<<8;} int id()const{return 77;} explicit operator bool()const{return ok;} };
  template<class...A> inline int system(const std::string&c,A&&...){ return vf_spawn(c); }
  template<class...A> inline void spawn(const std::string&c,A&&...){ vf_spawn(c); }
  inline std::string search_path(const std::string&n){ return "/usr/bin/"+n; }
  struct vf_io { template<class T> vf_io operator>(const T&)const{return *this;} template<class T> vf_io operator<(const T&)const{return *this;} template<class T> vf_io operator=(const T&)const{return *this;} };
  static const vf_io std_out={}, std_err={}, std_in={}, null={}, args={}, exe={}, cmd={}, shell={}, start_dir={};
} }
