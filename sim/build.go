package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync/atomic"
)

// The build step: patched copies of a few standard-library files and the
// worker programs are laid over GOROOT and /repo with `go build -overlay`.
// Nothing is written into either tree.

type builder struct {
	verif   string // /verif
	repo    string // /repo
	work    string // scratch directory of this run
	goroot  string
	replace map[string]string
}

func newBuilder(verif, repo, work string) (*builder, error) {
	out, err := goCmd(repo, "env", "GOROOT").Output()
	if err != nil {
		return nil, fmt.Errorf("go env GOROOT: %v", err)
	}
	return &builder{verif: verif, repo: repo, work: work, goroot: strings.TrimSpace(string(out)), replace: map[string]string{}}, nil
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")
	return c
}

func (b *builder) put(target string, content []byte) error {
	// named by content, so that the build cache recognises it
	h := sha256.Sum256(content)
	p := filepath.Join(b.verif, ".work", "ov", fmt.Sprintf("%x_%s", h[:8], filepath.Base(target)))
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	if c, err := os.ReadFile(p); err != nil || !bytes.Equal(c, content) {
		tmp := fmt.Sprintf("%s.%d.%d", p, os.Getpid(), atomic.AddInt64(&tmpSeq, 1))
		if err := os.WriteFile(tmp, content, 0o644); err != nil {
			return err
		}
		if err := os.Rename(tmp, p); err != nil {
			return err
		}
	}
	b.replace[target] = p
	return nil
}

var tmpSeq int64

type repl struct{ old, new string }

// patchStd overlays a standard-library file with exact text replacements; a
// missing anchor is an error (another toolchain than the one this was written
// for).
func (b *builder) patchStd(rel string, rs ...repl) error {
	p := filepath.Join(b.goroot, "src", rel)
	c, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	s := string(c)
	for _, r := range rs {
		if strings.Count(s, r.old) != 1 {
			return fmt.Errorf("%s: anchor found %d times: %q", rel, strings.Count(s, r.old), r.old)
		}
		s = strings.Replace(s, r.old, r.new, 1)
	}
	return b.put(p, []byte(s))
}

func (b *builder) addStd(rel, src string) error {
	c, err := os.ReadFile(filepath.Join(b.verif, "overlay", src))
	if err != nil {
		return err
	}
	return b.put(filepath.Join(b.goroot, "src", rel), c)
}

// patchRuntime: the seams of the simulated process (system calls, randomness,
// clock, preemption) and of the simulated threads (locks, pools).
func (b *builder) patchRuntime() error {
	if err := b.addStd("runtime/verif_sim.go", "runtime_verif_sim.go.txt"); err != nil {
		return err
	}
	if err := b.patchStd("runtime/rand.go",
		repl{"func randinit() {\n", "func randinit() {\n\tverifInit()\n"},
		repl{"func bootstrapRand() uint64 {\n", "func bootstrapRand() uint64 {\n\tif verifRandOn {\n\t\treturn verifBootNext()\n\t}\n"},
		repl{"func rand() uint64 {\n", "func rand() uint64 {\n\tif verifRandOn {\n\t\treturn verifNext()\n\t}\n"},
		repl{"	for i := range seed {\n		seed[i] = bootstrapRand()\n	}\n	bootstrapRandReseed() // erase key we just extracted\n",
			"	if verifRandOn {\n		mp.cheaprand, mp.cheaprand64 = 12345, 67890\n		return\n	}\n	for i := range seed {\n		seed[i] = bootstrapRand()\n	}\n	bootstrapRandReseed() // erase key we just extracted\n"},
	); err != nil {
		return err
	}
	if err := b.patchStd("runtime/proc.go",
		repl{"		if len(pp.timers.heap) > 0 {\n			return\n", "		if len(pp.timers.heap) > 0 && faketime == 0 {\n			return\n"},
		repl{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif verifSerial {\n\t\treturn false\n\t}\n"},
	); err != nil {
		return err
	}
	if err := b.patchStd("runtime/debug.go",
		repl{"func NumCPU() int {\n", "func NumCPU() int {\n\tif verifNCPU > 0 {\n\t\treturn verifNCPU\n\t}\n"},
		repl{"	ret := int(gomaxprocs)\n	if n <= 0 {\n", "	ret := int(gomaxprocs)\n	if n <= 0 {\n		if verifNCPU > ret {\n			ret = verifNCPU\n		}\n"},
	); err != nil {
		return err
	}
	if err := b.patchStd("runtime/time_nofake.go",
		repl{"	return nanotime1()\n", "	if faketime != 0 {\n		return faketime\n	}\n	return nanotime1()\n"},
	); err != nil {
		return err
	}
	if err := b.patchStd("time/sleep.go",
		repl{"		return runtimeNano()\n", "		return timerNano()\n"},
		repl{"	t := runtimeNano() + int64(d)\n", "	t := timerNano() + int64(d)\n"},
		repl{"// syncTimer returns", "//go:linkname timerNano runtime.nanotime\nfunc timerNano() int64\n\n// syncTimer returns"},
	); err != nil {
		return err
	}
	if err := b.patchStd("runtime/time.go",
		repl{"		return gp.bubble.now\n	}\n	return nanotime()\n}", "		return gp.bubble.now\n	}\n	return verif_nano()\n}"},
		repl{"		return sec, nsec, 0\n	}\n	return time_now()\n}", "		return sec, nsec, 0\n	}\n	return verif_time_now()\n}"},
	); err != nil {
		return err
	}
	if err := b.patchStd("syscall/syscall_linux.go",
		repl{`func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var errno uintptr
`, `func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var errno uintptr
	if r, e, h := verifSyscall(trap, a1, a2, a3, a4, a5, a6); h {
		return r, 0, Errno(e)
	}
`},
		repl{`func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`, `func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if r, e, h := verifSyscall(trap, a1, a2, a3, 0, 0, 0); h {
		return r, 0, Errno(e)
	}
`},
		repl{`	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
	runtime_exitsyscall()
`, `	var errno uintptr
	r1, r2, errno = linux.Syscall6(trap, a1, a2, a3, 0, 0, 0)
	err = Errno(errno)
	runtime_exitsyscall()
`},
		repl{`func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
`, `func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if r, e, h := verifSyscall(trap, a1, a2, a3, a4, a5, a6); h {
		return r, 0, Errno(e)
	}
`},
		repl{`	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	runtime_exitsyscall()
`, `	var errno uintptr
	r1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)
	err = Errno(errno)
	runtime_exitsyscall()
`},
		repl{`func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)
`, `//go:linkname verifSyscall runtime.verif_syscall
//go:noescape
func verifSyscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, errno uintptr, handled bool)

//go:uintptrkeepalive
//go:nosplit
//go:norace
func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {
	if r, _, h := verifSyscall(trap, a1, a2, a3, 0, 0, 0); h {
		return r, 0
	}
	r1, r2, _ = linux.Syscall6(trap, a1, a2, a3, 0, 0, 0)
	return
}
`},
	); err != nil {
		return err
	}
	// VERIF_ENV=n: an environment in which every variable a program could think
	// of may be set
	if err := b.patchStd("syscall/env_unix.go",
		repl{`	for i, s := range envs {
		for j := 0; j < len(s); j++ {
`, `	for i, s := range envs {
		if len(s) > 10 && s[:10] == "VERIF_ENV=" {
			for _, c := range s[10:] {
				verifEnv = verifEnv*10 + uint64(c-'0')
			}
			envs[i] = ""
			continue
		}
		for j := 0; j < len(s); j++ {
`},
		repl{`	i, ok := env[key]
	if !ok {
		return "", false
	}
`, `	i, ok := env[key]
	if !ok {
		return verifGetenv(key)
	}
`},
		repl{`func Setenv(key, value string) error {
`, `var verifEnv uint64

// verifGetenv makes up a value for a variable that is not set, except for those
// that configure the process itself.
func verifGetenv(key string) (string, bool) {
	if verifEnv == 0 || key == "HOME" || key == "PATH" || key == "PWD" {
		return "", false
	}
	for _, p := range []string{"XDG_", "GO", "VERIF", "MUSTACHE", "LOGSTASH"} {
		if len(key) >= len(p) && key[:len(p)] == p {
			return "", false
		}
	}
	h := verifEnv * 0x9e3779b97f4a7c15
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 0x100000001b3
	}
	h ^= h >> 29
	if h%3 == 0 {
		return "", false
	}
	l := [...]string{"", "1", "0", "true", "20", "/srv", "C", "no", "always", "2"}
	return l[h/3%uint64(len(l))], true
}

func Setenv(key, value string) error {
`},
	); err != nil {
		return err
	}
	p := filepath.Join(b.goroot, "src", "syscall/asm_linux_amd64.s")
	c, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	s := string(c)
	i := strings.Index(s, "// func rawSyscallNoError")
	j := strings.Index(s, "// func gettimeofday(")
	if i < 0 || j < i {
		return fmt.Errorf("asm_linux_amd64.s: anchors not found")
	}
	return b.put(p, []byte(s[:i]+s[j:]))
}

func (b *builder) overlayFile(name string) (string, error) {
	p := filepath.Join(b.work, name)
	c, err := json.MarshalIndent(map[string]any{"Replace": b.replace}, "", " ")
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(p, c, 0o644)
}

// addPkg lays the Go files of /verif/worker/<dir> over a virtual package
// directory of /repo.
func (b *builder) addPkg(dir, virtual string) error {
	es, err := os.ReadDir(filepath.Join(b.verif, "worker", dir))
	if err != nil {
		return err
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), ".s") {
			continue
		}
		c, err := os.ReadFile(filepath.Join(b.verif, "worker", dir, e.Name()))
		if err != nil {
			return err
		}
		if err := b.put(filepath.Join(b.repo, virtual, e.Name()), c); err != nil {
			return err
		}
	}
	return nil
}

func (b *builder) build(overlay, out, pkg string, flags ...string) error {
	args := append([]string{"build", "-overlay", overlay, "-o", out}, flags...)
	args = append(args, pkg)
	c := goCmd(b.repo, args...)
	if !slices.Contains(flags, "-race") { // as releases are built
		c.Env = append(c.Env, "CGO_ENABLED=0")
	}
	if o, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, o)
	}
	return nil
}
