package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os/exec"
	"strings"
	"sync"
)

type drvOp struct {
	Op      string `json:"op"`
	Name    string `json:"name,omitempty"`
	Content string `json:"content,omitempty"`
	Other   string `json:"other,omitempty"`
	Ignore  bool   `json:"ignore,omitempty"`
	Warn    bool   `json:"warn,omitempty"`
	Max     uint64 `json:"max,omitempty"`
	NoRec   bool   `json:"norec,omitempty"`
	Skip    int    `json:"skip,omitempty"`
}

type drvRes struct {
	Ok    bool   `json:"ok"`
	Str   string `json:"str,omitempty"`
	Err   string `json:"err,omitempty"`
	FF    string `json:"ff,omitempty"`
	HasFF bool   `json:"has_ff,omitempty"`
	Panic string `json:"panic,omitempty"`
	Nil   bool   `json:"nil,omitempty"`
	Warns int    `json:"warns,omitempty"`
	Noid  int    `json:"noid,omitempty"`
	Odd   int    `json:"odd,omitempty"`
	Dups  int    `json:"dups,omitempty"`
}

// askLib runs library calls of the tree under test in a process of its own.
func askLib(ops ...drvOp) ([]drvRes, error) {
	in, _ := json.Marshal(ops)
	c := exec.Command(progs["drv"])
	c.Stdin = bytes.NewReader(in)
	c.Env = []string{"HOME=/nonexistent", "VERIF_RAND=1"}
	var eb bytes.Buffer
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		return nil, harnessError{fmt.Sprintf("oracle process failed: %v: %s", err, eb.String())}
	}
	var rs []drvRes
	if err := json.Unmarshal(out, &rs); err != nil || len(rs) != len(ops) {
		return nil, harnessError{"oracle process: bad answer"}
	}
	return rs, nil
}

func makeItem(name, content string) (*item, error) {
	rs, err := askLib(drvOp{Op: "parse", Name: name, Content: content}, drvOp{Op: "parse", Name: name, Content: content, Warn: true})
	if err != nil {
		return nil, err
	}
	it := &item{Name: name, Content: content, Valid: rs[0].Ok && rs[0].Err == "", Formatted: rs[0].Str, NoIDs: rs[0].Noid, Fixable: rs[0].Noid - rs[0].Odd, Dups: rs[0].Dups, Warns: rs[1].Warns}
	if it.Valid {
		rs, err = askLib(drvOp{Op: "parse", Name: name, Content: it.Formatted})
		if err != nil {
			return nil, err
		}
		it.Idempotent = rs[0].Ok && rs[0].Str == it.Formatted
	}
	return it, nil
}

type corpus struct {
	items   []*item
	valid   []*item
	invalid []*item
	idem    []*item // valid, formatting is a fixpoint
	noid    []*item // valid, some plugin lacks an id
	withid  []*item // valid, all plugins have ids
	clean   []*item // valid, and lint has nothing to say
	chatty  []*item // valid, and lint has several things to say
}

var (
	itemMu    sync.Mutex
	itemCache = map[string]*item{}
)

// itemOf looks a content up (or asks the library about it).
func itemOf(content string) (*item, error) {
	itemMu.Lock()
	it := itemCache[content]
	itemMu.Unlock()
	if it != nil {
		return it, nil
	}
	it, err := makeItem("x", content)
	if err != nil {
		return nil, err
	}
	itemMu.Lock()
	itemCache[content] = it
	itemMu.Unlock()
	return it, nil
}

func buildCorpus(r *rng, n int) (*corpus, error) {
	cs := genContents(r, n)
	// one file larger than 64 KiB, cheap to parse
	cs = append(cs, "input { stdin { id => \"big\" message => \""+strings.Repeat("0123456789abcdef", 4500)+"\" } }\n",
		"input{stdin{message=>\""+strings.Repeat("0123456789abcdef", 4500)+"\"}}output{stdout{}}")
	items := make([]*item, len(cs))
	errs := make([]error, len(cs))
	parallel(len(cs), func(i int) { items[i], errs[i] = itemOf(cs[i]) })
	// what is in the form of the formatter already, and what is so nearly
	var more []string
	for i, it := range items {
		if it == nil || !it.Valid || len(it.Content) > 20000 || i%4 != 0 {
			continue
		}
		f := it.Formatted
		more = append(more, f)
		switch i % 3 {
		case 0:
			more = append(more, strings.TrimSuffix(f, "\n"))
		case 1:
			more = append(more, strings.ReplaceAll(f, "\n", "\r\n"))
		default:
			more = append(more, f+"\n\n")
		}
	}
	its, es := make([]*item, len(more)), make([]error, len(more))
	parallel(len(more), func(i int) { its[i], es[i] = itemOf(more[i]) })
	items, errs = append(items, its...), append(errs, es...)
	c := &corpus{}
	for i, it := range items {
		if errs[i] != nil {
			return nil, errs[i]
		}
		c.items = append(c.items, it)
		if !it.Valid {
			c.invalid = append(c.invalid, it)
			continue
		}
		c.valid = append(c.valid, it)
		if it.NoIDs+it.Dups+it.Warns == 0 {
			c.clean = append(c.clean, it)
		}
		if it.NoIDs > 2 || it.Dups > 1 || it.Warns > 0 {
			c.chatty = append(c.chatty, it)
		}
		if it.Idempotent {
			c.idem = append(c.idem, it)
		}
		if it.Fixable > 0 {
			c.noid = append(c.noid, it)
		} else if it.NoIDs == 0 {
			c.withid = append(c.withid, it)
		}
	}
	if len(c.valid) < 5 || len(c.invalid) < 3 || len(c.noid) < 2 || len(c.withid) < 2 || len(c.clean) == 0 || len(c.idem) < 5 {
		return nil, harnessError{fmt.Sprintf("corpus too poor: %d valid %d invalid %d without ids %d with ids %d stable", len(c.valid), len(c.invalid), len(c.noid), len(c.withid), len(c.idem))}
	}
	return c, nil
}

const workersN = 8

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workersN; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

var fixMu sync.Mutex
var fixCache = map[[2]string]string{}

// validFix says whether fixed is old plus ids ("" if so, else why not).
func validFix(old, fixed string) (string, error) {
	key := [2]string{old, fixed}
	fixMu.Lock()
	v, ok := fixCache[key]
	fixMu.Unlock()
	if ok {
		return v, nil
	}
	rs, err := askLib(drvOp{Op: "validatefix", Content: old, Other: fixed})
	if err != nil {
		return "", err
	}
	v = rs[0].Err
	if !rs[0].Ok && v == "" {
		v = "not valid: " + rs[0].Panic
	}
	fixMu.Lock()
	fixCache[key] = v
	fixMu.Unlock()
	return v, nil
}
