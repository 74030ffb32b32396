package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
)

// runConformance compares the simulated kernel with the one of the host: the
// same pseudo-random system calls, by an unprivileged user, in a scratch
// directory here and in the same world there. It needs root (to prepare files
// of other users), and is no part of any check.
func runConformance(n, from int) int {
	base := filepath.Join(verifDir, ".work")
	os.MkdirAll(base, 0o755)
	dir, err := os.MkdirTemp(base, "c")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	b, err := newBuilder(verifDir, repoDir, dir)
	if err != nil {
		die("%v", err)
	}
	if err := b.patchRuntime(); err != nil {
		die("%v", err)
	}
	if err := b.addPkg("conf", "internal/verifsim/conf"); err != nil {
		die("%v", err)
	}
	ov, err := b.overlayFile("conf.json")
	if err != nil {
		die("%v", err)
	}
	if err := b.build(ov, filepath.Join(dir, "conf"), "./internal/verifsim/conf"); err != nil {
		die("%v", err)
	}
	progs["conf"] = filepath.Join(dir, "conf")
	const uid, grp = 65534, 60001
	u := func(p, t string, m, uid, gid uint32, c string) FileSpec {
		f := FileSpec{Path: p, Type: t, Mode: m, UID: uid, GID: gid, Content: c}
		if t == "l" {
			f.Content, f.Target = "", c
		}
		return f
	}
	world := []FileSpec{
		u("/w", "d", 0o755, uid, uid, ""), u("/w/d", "d", 0o755, uid, uid, ""), u("/w/tmp", "d", 0o1777, 4242, 4242, ""), u("/w/priv", "d", 0o700, 4242, 4242, ""),
		u("/w/g", "d", 0o2775, uid, grp, ""), u("/w/e", "d", 0o555, uid, uid, ""),
		u("/w/a", "", 0o644, uid, uid, "content of a"), u("/w/b", "", 0o4755, uid, uid, strings.Repeat("b", 700)), u("/w/d/x", "", 0o2755, uid, grp, "x"),
		u("/w/ro", "", 0o444, uid, uid, "read only"), u("/w/other", "", 0o644, 4242, 4242, "of somebody else"), u("/w/shared", "", 0o6777, 4242, 4242, "shared"),
		u("/w/grp", "", 0o664, 4242, grp, "of the group"), u("/w/tmp/t", "", 0o666, 4242, 4242, "t"), u("/w/priv/z", "", 0o666, 4242, 4242, "z"), u("/w/e/f", "", 0o644, uid, uid, "f"),
		u("/w/l", "l", 0, uid, uid, "a"), u("/w/loop", "l", 0, uid, uid, "loop"), u("/w/dang", "l", 0, uid, uid, "d/new"), u("/w/dl", "l", 0, uid, uid, "d"),
	}
	bad := 0
	for s := from; s < from+n; s++ {
		steps := []string{"60", "400"}[s%2]
		sc := &Scenario{Files: world, Cwd: "/w", Capacity: -1, InoBase: 1000, TimeBase: 1_600_000_000}
		p := ProcSpec{Prog: "conf", Args: []string{strconv.Itoa(s), steps}, Pid: 77, UID: uid, Groups: []uint32{grp}, Env: []string{"CONF_TOP=/w"}}
		sc.Procs = []ProcSpec{p}
		res, err := runScenario(sc, nil, nil)
		if err != nil {
			die("%v", err)
		}
		sim := res.procs[0].Stdout
		if res.procs[0].Exit != 0 {
			die("conf: %s %s", res.procs[0].Stderr, res.procs[0].Real)
		}
		host, err := onHost(world, p, uid, grp)
		if err != nil {
			die("%v", err)
		}
		if sim != host {
			a, b := strings.Split(sim, "\n"), strings.Split(host, "\n")
			for i := 0; i < len(a) && i < len(b); i++ {
				if a[i] != b[i] {
					lo := max(0, i-8)
					fmt.Printf("seed %d line %d\n  %s\nsimulated: %s\nhost:      %s\n", s, i+1, strings.Join(a[lo:i], "\n  "), a[i], b[i])
					break
				}
			}
			bad++
			if bad > 5 {
				return 1
			}
		}
	}
	fmt.Printf("%d sequences of system calls, %d differ between the simulated kernel and the host\n", n, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func onHost(world []FileSpec, p ProcSpec, uid, grp int) (string, error) {
	top, err := os.MkdirTemp("", "conform")
	if err != nil {
		return "", err
	}
	defer func() {
		filepath.Walk(top, func(p string, i os.FileInfo, err error) error {
			if i != nil && i.IsDir() {
				os.Chmod(p, 0o700)
			}
			return nil
		})
		os.RemoveAll(top)
	}()
	os.Chmod(top, 0o755)
	old := syscall.Umask(0)
	for _, f := range world {
		q := filepath.Join(top, f.Path)
		switch f.Type {
		case "d":
			err = os.Mkdir(q, 0o755)
		case "l":
			err = os.Symlink(f.Target, q)
		default:
			err = os.WriteFile(q, []byte(f.Content), 0o644)
		}
		if err == nil {
			err = os.Lchown(q, int(f.UID), int(f.GID))
		}
		if err == nil && f.Type != "l" {
			err = syscall.Chmod(q, f.Mode)
		}
		if err != nil {
			syscall.Umask(old)
			return "", err
		}
	}
	syscall.Umask(old)
	c := exec.Command(progs["conf"], p.Args...)
	prog, err := os.ReadFile(progs["conf"])
	if err != nil {
		return "", err
	}
	c.Path = filepath.Join(top, "conf")
	if err := os.WriteFile(c.Path, prog, 0o755); err != nil {
		return "", err
	}
	os.Chmod(c.Path, 0o755)
	c.Dir = filepath.Join(top, "w")
	c.Env = []string{"CONF_TOP=" + filepath.Join(top, "w"), "HOME=/nonexistent"}
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(uid), Gid: uint32(uid), Groups: []uint32{uint32(grp)}}}
	o, err := c.Output()
	return string(o), err
}
