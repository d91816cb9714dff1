// byte snapshots of directory trees
#pragma once
#include <map>
#include <string>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

namespace tree {
namespace fs = std::filesystem;

typedef std::map<std::string, std::string> Snapshot;    // relative path -> contents; directories end in '/'

// only ever below a scratch directory
inline void wipe(const std::string & root) {
    if(root.find("z5v") == std::string::npos) throw std::runtime_error("refusing to wipe " + root);
    fs::remove_all(root);
}

inline std::string slurpAt(int dir, const char * name, const std::string & what) {
    const int fd = openat(dir, name, O_RDONLY);
    if(fd < 0) throw std::runtime_error("scratch read failed: " + what);
    std::string out;
    char buf[16384];
    for(;;) {
        const ssize_t n = ::read(fd, buf, sizeof(buf));
        if(n < 0) { ::close(fd); throw std::runtime_error("scratch read failed: " + what); }
        out.append(buf, n);
        if(n < (ssize_t) sizeof(buf)) break;
    }
    ::close(fd);
    return out;
}
inline std::string slurp(const fs::path & p) { return slurpAt(AT_FDCWD, p.c_str(), p.string()); }

inline void spit(const fs::path & p, const std::string & data) {
    const int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd < 0) throw std::runtime_error("scratch write failed: " + p.string());
    std::size_t o = 0;
    while(o < data.size()) {
        const ssize_t n = ::write(fd, data.data() + o, data.size() - o);
        if(n <= 0) { ::close(fd); throw std::runtime_error("scratch write failed: " + p.string()); }
        o += n;
    }
    ::close(fd);
}

inline void walk(int dir, const std::string & rel, Snapshot & s) {
    DIR * d = fdopendir(dir);
    if(!d) { ::close(dir); throw std::runtime_error("scratch listing failed"); }
    while(struct dirent * e = ::readdir(d)) {
        const std::string n = e->d_name;
        if(n == "." || n == "..") continue;
        bool isdir = e->d_type == DT_DIR;
        if(e->d_type == DT_UNKNOWN) { struct stat st; isdir = fstatat(dirfd(d), n.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode); }
        if(isdir) {
            s[rel + n + "/"] = "";
            const int sub = openat(dirfd(d), n.c_str(), O_RDONLY | O_DIRECTORY);
            if(sub < 0) throw std::runtime_error("scratch listing failed");
            walk(sub, rel + n + "/", s);
        } else if(e->d_type == DT_LNK) s[rel + n] = "<link>";
        else s[rel + n] = slurpAt(dirfd(d), n.c_str(), rel + n);
    }
    closedir(d);
}

inline Snapshot snapshot(const std::string & root) {
    Snapshot s;
    const int fd = ::open(root.c_str(), O_RDONLY | O_DIRECTORY);
    if(fd >= 0) walk(fd, "", s);
    return s;
}

// make the tree at root equal to the snapshot
inline void restore(const std::string & root, const Snapshot & want, const Snapshot & have) {
    for(auto it = have.rbegin(); it != have.rend(); ++it)
        if(!want.count(it->first) && ::remove((root + "/" + it->first).c_str()) != 0) throw std::runtime_error("scratch restore failed");
    for(auto & kv : want) {
        auto it = have.find(kv.first);
        if(kv.first.back() == '/') { if(it == have.end()) fs::create_directories(root + "/" + kv.first); }
        else if(it == have.end() || it->second != kv.second) {
            spit(root + "/" + kv.first, kv.second);
        }
    }
}

inline std::string flat(const Snapshot & s) {
    std::string o;
    for(auto & kv : s) { o += std::to_string(kv.first.size()) + ":" + kv.first + std::to_string(kv.second.size()) + ":" + kv.second; }
    return o;
}

inline std::string names(const Snapshot & s) {
    std::string o;
    for(auto & kv : s) o += kv.first + (kv.first.back() == '/' ? " " : "(" + std::to_string(kv.second.size()) + ") ");
    return o;
}
}
