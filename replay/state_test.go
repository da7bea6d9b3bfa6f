package radix

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"strings"
	"time"
)

// Saved states: round trips, write errors, every cut, damaged headers.

func sbuild(r *rand.Rand, n, allocs int, big bool) (*vworld, error) {
	w := &vworld{m: map[string]uint64{}, keyOf: map[uint64]string{}}
	w.open(allocs)
	pfs := vprofiles()
	pf := pfs[r.Intn(len(pfs))]
	id := uint64(0)
	pad := ""
	if big { // several blocks
		pad = string(vrep(r, 3000))
	}
	for i := 0; i < n; i++ {
		k := pf.key(r)
		if big {
			k = string([]byte{byte(1 + i>>7), byte(1 + i&127)}) + pad + k
		}
		a := w.al[r.Intn(allocs)]
		id++
		if r.Intn(3) == 0 {
			if _, err := w.remove(a, k); err != nil {
				return nil, err
			}
			delete(w.m, k)
			continue
		}
		w.setk(id, k)
		if err := w.upsert(a, k, id); err != nil {
			return nil, err
		}
		w.m[k] = id
	}
	return w, nil
}

// the saved state of w's tree, which stays stopped
func ssave(w *vworld) ([]byte, error) {
	if w.al != nil {
		w.release()
	}
	w.t.Stop()
	var buf bytes.Buffer
	n, err := w.t.WriteState(&buf)
	if err != nil || n != buf.Len() {
		return nil, fmt.Errorf("[[state]] WriteState = %d,%v (%d bytes written)", n, err, buf.Len())
	}
	return buf.Bytes(), nil
}

func sload(b []byte) (t *Tree, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return NewTreeFromState(bytes.NewReader(b))
}

// smallest readers are allowed to return a byte at a time
type sdrip struct{ r io.Reader }

func (d sdrip) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1+len(p)/2]
	}
	return d.r.Read(p)
}

func sroundTrip(r *rand.Rand, big bool) error {
	n := []int{0, 1, 2, 3, 50, 400, 1500}[r.Intn(7)]
	if big {
		n = 300 + r.Intn(700)
	}
	allocs := 1 + r.Intn(4)
	w, err := sbuild(r, n, allocs, big)
	if err != nil {
		return err
	}
	for round := 0; round < 3; round++ {
		state, err := ssave(w)
		if err != nil {
			return err
		}
		var t2 *Tree
		if round == 1 {
			t2, err = NewTreeFromState(sdrip{bytes.NewReader(state)})
		} else {
			t2, err = sload(state)
		}
		if err != nil {
			return fmt.Errorf("[[state]] loading a saved tree of %d keys: %v", len(w.m), err)
		}
		// the original is unchanged
		w.t.Start()
		w.reserve()
		if err := w.verify(true); err != nil {
			return fmt.Errorf("[[state]] after saving: %v", err)
		}
		w.release()
		w.t.Close()
		w.t = t2
		if l := t2.Len(); l != len(w.m) {
			return fmt.Errorf("[[state]] Len() = %d after loading, want %d", l, len(w.m))
		}
		// exactly as many allocators
		got := make(chan *Allocator, allocs+1)
		for i := 0; i < allocs+1; i++ {
			go func() { got <- t2.GetAllocator() }()
		}
		var as []*Allocator
		for i := 0; i < allocs; i++ {
			select {
			case a := <-got:
				as = append(as, a)
			case <-time.After(5 * time.Second):
				return fmt.Errorf("[[state]] only %d of %d allocators after loading", i, allocs)
			}
		}
		select {
		case <-got:
			return fmt.Errorf("[[state]] more than %d allocators after loading", allocs)
		case <-time.After(time.Millisecond):
		}
		seen := map[*Allocator]bool{}
		for _, a := range as {
			if seen[a] {
				return fmt.Errorf("[[state]] an allocator is handed out twice after loading")
			}
			seen[a] = true
		}
		t2.ReleaseAllocator(as[0])
		t2.ReleaseAllocator(<-got)
		for _, a := range as[1:] {
			t2.ReleaseAllocator(a)
		}
		w.reserve()
		if err := w.verify(true); err != nil {
			return fmt.Errorf("[[state]] after loading: %v", err)
		}
		if err := w.queries(""); err != nil {
			return fmt.Errorf("[[state]] after loading: %v", err)
		}
		// further operations
		id := uint64(1<<30 + round<<20)
		var ks []string
		for k := range w.m {
			ks = append(ks, k)
		}
		for i := 0; i < 150 && len(ks) > 0; i++ {
			k := ks[r.Intn(len(ks))]
			a := w.al[r.Intn(allocs)]
			id++
			if r.Intn(2) == 0 {
				if _, err := w.remove(a, k); err != nil {
					return fmt.Errorf("[[state]] after loading: %v", err)
				}
				delete(w.m, k)
			} else {
				w.setk(id, k)
				if err := w.upsert(a, k, id); err != nil {
					return fmt.Errorf("[[state]] after loading: %v", err)
				}
				w.m[k] = id
			}
			if i%10 == 0 {
				if err := w.verify(true); err != nil {
					return fmt.Errorf("[[state]] operations after loading: %v", err)
				}
			}
		}
	}
	w.close()
	return nil
}

func swriteErrors(r *rand.Rand) error {
	w, err := sbuild(r, 300, 2, false)
	if err != nil {
		return err
	}
	if _, err := ssave(w); err != nil {
		return err
	}
	count := &vfailWriter{left: 1 << 30}
	if _, err := w.t.WriteState(count); err != nil {
		return fmt.Errorf("[[state]] WriteState: %v", err)
	}
	for i := 0; i < 1<<30-count.left; i++ {
		i := i
		ch := make(chan error, 1)
		go func() {
			_, err := w.t.WriteState(&vfailWriter{left: i})
			ch <- err
		}()
		select {
		case err := <-ch:
			if err == nil {
				return fmt.Errorf("[[state]] the error of write %d of %d is not returned by WriteState", i, 1<<30-count.left)
			}
		case <-time.After(20 * time.Second):
			return fmt.Errorf("[[state]] WriteState does not return after a failed write %d of %d", i, 1<<30-count.left)
		}
	}
	w.t.Close()
	return nil
}

func sblocks(r *rand.Rand) error { // write errors with many blocks
	w := &vworld{m: map[string]uint64{}, keyOf: map[uint64]string{}}
	w.open(1)
	id := uint64(0)
	for i := 0; i < 120; i++ {
		k := string([]byte{byte(1 + i)}) + string(vrep(r, 1<<19)) + "\x20\x00"
		k2 := k[:len(k)-2] + "\x21\x00"
		for _, k := range []string{k, k2} {
			id++
			w.setk(id, k)
			if err := w.upsert(w.al[0], k, id); err != nil {
				return err
			}
		}
	}
	w.release()
	w.t.Stop()
	for _, left := range []int{0, 1, 3, 8, 9, 10, 11, 20} {
		left := left
		ch := make(chan error, 1)
		go func() {
			_, err := w.t.WriteState(&vfailWriter{left: left})
			ch <- err
		}()
		select {
		case err := <-ch:
			if err == nil {
				return fmt.Errorf("[[state]] the error of write %d is not returned by WriteState", left)
			}
		case <-time.After(20 * time.Second):
			return fmt.Errorf("[[state]] WriteState does not return after a failed write")
		}
	}
	w.t.Close()
	return nil
}

func smustReject(b []byte, what string) error {
	type res struct {
		t   *Tree
		err error
	}
	ch := make(chan res, 1)
	go func() { t, err := sload(b); ch <- res{t, err} }()
	select {
	case x := <-ch:
		if x.err == nil {
			return fmt.Errorf("[[reject]] %s is accepted", what)
		}
		if strings.HasPrefix(x.err.Error(), "panic:") {
			return fmt.Errorf("[[reject]] loading %s panics: %v", what, x.err)
		}
		if x.t != nil {
			return fmt.Errorf("[[reject]] loading %s returns a tree and %v", what, x.err)
		}
	case <-time.After(20 * time.Second):
		return fmt.Errorf("[[reject]] loading %s does not return", what)
	}
	return nil
}

var sline = regexp.MustCompile(`(?m)^[a-z_]+ [0-9a-z ]+\n`)

func sdamage(r *rand.Rand, secs int) error {
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for round := 0; round < 6; round++ {
		n, allocs := []int{0, 3, 200, 700}[r.Intn(4)], 1+r.Intn(3)
		w, err := sbuild(r, n, allocs, round%3 == 2)
		if err != nil {
			return err
		}
		b, err := ssave(w)
		w.t.Start()
		w.t.Close()
		if err != nil {
			return err
		}
		// every cut near a line, others at random
		cuts := map[int]bool{0: true, 1: true, len(b) - 1: true}
		for _, m := range sline.FindAllIndex(b, 400) {
			for _, d := range []int{-1, 0, 1, 2} {
				cuts[m[0]+d], cuts[m[1]+d] = true, true
			}
			for i := m[0]; i < m[1] && m[1]-m[0] < 60; i++ {
				cuts[i] = true
			}
		}
		for i := 0; i < 60; i++ {
			cuts[r.Intn(len(b))] = true
		}
		for c := range cuts {
			if c < 0 || c >= len(b) {
				continue
			}
			if err := smustReject(b[:c:c], fmt.Sprintf("the first %d of %d bytes of a saved state (%d keys, %d allocators)", c, len(b), n, allocs)); err != nil {
				return err
			}
			if time.Now().After(end) {
				return nil
			}
		}
		// the header lines, damaged one at a time
		head := bytes.Index(b, []byte("\nallocator 0\n")) + 1
		for _, m := range sline.FindAllIndex(b[:head], -1) {
			line := string(b[m[0] : m[1]-1])
			name := line[:strings.IndexByte(line, ' ')]
			repl := func(s string) []byte {
				return append(append(append([]byte(nil), b[:m[0]]...), s...), b[m[1]:]...)
			}
			vals := []string{"", "x", "-1", "1.5", "99999999999999999999999", "0x10", "1 1", "18446744073709551616"}
			for _, v := range vals {
				if err := smustReject(repl(name+" "+v+"\n"), fmt.Sprintf("a saved state with the header %q", name+" "+v)); err != nil {
					return err
				}
			}
			if err := smustReject(repl(name+"\n"), fmt.Sprintf("a saved state with the header %q", name)); err != nil {
				return err
			}
			if err := smustReject(repl(""), fmt.Sprintf("a saved state without the header %q", name)); err != nil {
				return err
			}
			var out []string
			switch name {
			case "blocksize":
				out = []string{"0", "4096", "2097151", "2097153", "4194304", "18446744073709551615"}
			case "allocated_blocks":
				out = []string{"65536", "65537", "1000000", "18446744073709551615", "9223372036854775807"}
			case "allocators":
				out = []string{"0", "18446744073709551615", "9223372036854775808", fmt.Sprint(allocs + 1), "1000000000"}
				if allocs > 1 {
					out = append(out, fmt.Sprint(allocs-1))
				}
			case "root_node":
				out = []string{fmt.Sprint(buildNode(0, 60000<<18, 2, 0)), fmt.Sprint(buildNode(0, 1<<38, 2, 0))}
			}
			for _, v := range out {
				if err := smustReject(repl(name+" "+v+"\n"), fmt.Sprintf("a saved state with the header %q", name+" "+v)); err != nil {
					return err
				}
			}
		}
		// allocator and block headers
		for _, m := range sline.FindAllIndex(b, 400) {
			line := string(b[m[0] : m[1]-1])
			name := line[:strings.IndexByte(line, ' ')]
			var out []string
			switch name {
			case "allocator":
				out = []string{fmt.Sprint(allocs), "18446744073709551615", "x", "-1", ""}
			case "next_free", "block_size", "offset":
				out = []string{"x", "-1", ""}
			case "block":
				out = []string{"x", "-1", ""}
				if m[0] > head && bytes.HasPrefix(b[m[1]:], []byte("compression")) {
					out = append(out, "65536", "18446744073709551615")
				}
			case "size":
				out = []string{"x", "-1", "", "18446744073709551615", "9223372036854775808", "100000000"}
			case "recycler":
				f := strings.Fields(line)
				if len(f) == 3 {
					out = []string{"258 " + f[2], "-1 " + f[2], "x " + f[2], f[1] + " x", f[1] + " -1", f[1], "100000 " + f[2]}
				}
			}
			for _, v := range out {
				d := append(append(append([]byte(nil), b[:m[0]]...), (name+" "+v+"\n")...), b[m[1]:]...)
				if err := smustReject(d, fmt.Sprintf("a saved state with the line %q", name+" "+v)); err != nil {
					return err
				}
				if time.Now().After(end) {
					return nil
				}
			}
		}
	}
	return nil
}

func init() {
	vScenarios = append(vScenarios, func(r *rand.Rand, prop string) error {
		if prop != "C15" && prop != "all" && prop != "C10" {
			return nil
		}
		end := time.Now().Add(20 * time.Second)
		if err := swriteErrors(r); err != nil {
			return err
		}
		for i := 0; i < 12 && time.Now().Before(end); i++ {
			if err := sroundTrip(r, i%4 == 3); err != nil {
				return err
			}
		}
		if prop == "C10" {
			return nil
		}
		return sblocks(r)
	}, func(r *rand.Rand, prop string) error {
		if prop != "C16" && prop != "all" {
			return nil
		}
		return sdamage(r, 25)
	})
}
