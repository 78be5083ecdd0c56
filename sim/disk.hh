/*
Simulated disk.

Paths below /sim/ exist only here. The system calls of the code under test (and of the real C++
stream library underneath it) on such files are interposed; each one is a scheduling point and may
meet a planned fault. Everything handed to write() survives a crash of the process, nothing else does.
*/

#pragma once

#include "core.hh"
#include <string>
#include <vector>

namespace sim {

enum FaultKind {
	F_NONE = 0,
	F_SHORT,    // at call #ord transfer at most n bytes (>= 1)
	F_EINTR,    // call #ord is interrupted before any transfer
	F_ERR,      // call #ord transfers n bytes, the next attempt fails with err; sticky: for ever
	F_CRASH,    // the process dies inside call #ord after n bytes
};

enum SysOp { S_WRITE = 0, S_READ = 1, S_SEEK = 2, S_OPEN = 3, S_NUM };

struct Fault
{
	int kind, op;
	int64_t ord, n;
	int err;
	bool sticky;
	std::string file; // empty: any
};

struct Disk
{
	// configuration of the current run
	std::vector<Fault> faults;
	int64_t max_read = 0, max_write = 0; // device transfers at most this much per call; 0: no limit
	int64_t quota = -1; // size at which the device is full
	bool unseekable = false;
	// state
	bool crashed = false; // the writing process is dead: nothing it does has any effect
	bool hard_error = false; // some write has been refused
	bool hard_read_error = false, seek_error = false, open_error = false;
	int64_t refused_at = -1; // file offset of the first refused byte
	int64_t refused_size = -1; // size of the file then
	bool refused_partial = false; // the call before the first refusal was cut short
	int64_t read_failed_at = -1; // file offset of the first failed read
	int64_t calls[S_NUM] = {};
	Ctx *ctx = nullptr;

	void reset(Ctx &);
	void clear_faults();
	bool exists(const std::string &name);
	std::vector<uint8_t> content(const std::string &name);
	void put(const std::string &name, const std::vector<uint8_t> &data);
	void remove(const std::string &name);
	int open_handles();
	// the process has been restarted
	void restart();
};

extern Disk disk;

// called at every system call on a simulated file, if set (task scheduling)
extern void (*syscall_hook)(int op);

}
