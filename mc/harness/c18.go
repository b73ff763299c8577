package harness

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
	"verif/vsched/vos"
)

// evilKeys are session keys that contain path syntax.
var evilKeys = []string{
	"", ".", "..", "/", "\\", "../a", "..\\a", "./a", "/a", "a/", "a/.", "a/..", "a/../a", "x/../a", "sub/inner", "sub/../a", "sub\\inner",
	"../outside", "../../work/outside", "/work/outside", "/work/store/sessions/a", "../sessions/a", "..//sessions//a", "/etc/passwd",
	"a.wwrsess", "a.wwrsess/", "a.wwrsess/../a", "../sessions/a.wwrsess/../a", "a\x00", "\x00a", "a\x00b", "%61", "%2e%2e%2foutside", "..%2foutside", "..%2Foutside", "a%2Fb", "a/b", "a%252Fb", "a+b", "a b", "a%20b",
	"A", "a ", " a", "a.", ".a", "~", "~a", "$HOME", "*", "?", "[a]", "a\n", "a*", "a?", "[a-z]", "a:b", "a;b", "a|b", "\xff\xfe", "ä", "a\u0308", "\u212b", "\u00c5",
	strings.Repeat("../", 30) + "work/outside", strings.Repeat("k", 246), strings.Repeat("k", 247), strings.Repeat("k", 248), strings.Repeat("k", 255), strings.Repeat("k", 300), strings.Repeat("k/", 3000),
	"a#b", "a?b", "a&b", "a=b", "a,b", "-", "_", "con", "nul", "a.tmp", ".wwrsess", "wwrsess",
}

// keyWorld is a default session storage in a populated file system.
type keyWorld struct {
	fs     *vos.FS
	m      *wwr.DefaultSessionManager
	stored map[string]*drec
	failf  func(string, ...any)
}

const outsideSess = `{"c":"2020-01-02T03:04:05Z","l":"2020-01-02T03:04:05Z","i":{"of":"outside"}}`

func newKeyWorld(failf func(string, ...any)) *keyWorld {
	w := &keyWorld{fs: vos.Reset(), stored: map[string]*drec{}, failf: failf}
	w.fs.PutDir(sessDir)
	for _, p := range []string{"/work/outside.wwrsess", "/work/store/outside.wwrsess", "/outside.wwrsess", "/etc/passwd", "/etc/passwd.wwrsess", "/work/a.wwrsess",
		sessDir + "/sub/inner.wwrsess", "/work/store/a.wwrsess", "/a.wwrsess", "/work/.wwrsess", "/root/a.wwrsess"} {
		w.fs.Put(p, outsideSess)
	}
	w.m = wwr.NewDefaultSessionManager(sessDir)
	return w
}

func (w *keyWorld) store(key string) bool {
	r := &drec{key: key, creation: sessTime, info: map[string]interface{}{"of": fmt.Sprintf("%+q", key)}}
	s := &wwr.Session{Key: key, Creation: sessTime, LastLookup: sessTime, Info: wwr.GenericSessionInfoParser(r.info)}
	r.exists[1] = true
	if err := w.m.OnSessionCreated(sessConn{s: s}); err != nil {
		return false
	}
	w.stored[key] = r
	return true
}

// ours lists the files the storage may touch: those directly in its directory.
func inDir(p string) bool {
	if !strings.HasPrefix(p, "/") {
		p = vos.Cwd + "/" + p
	}
	// resolve like the kernel (there are no symbolic links)
	p = filepath.Clean(p)
	return p == sessDir || filepath.Dir(p) == sessDir
}

// others returns the files that no operation on key may change.
func (w *keyWorld) outside() map[string]string {
	out := map[string]string{}
	for p, d := range w.fs.Files() {
		if filepath.Dir(p) != sessDir {
			out[p] = d
		}
	}
	return out
}

func (w *keyWorld) checkTouched(what string) {
	for _, t := range w.fs.Touched {
		if !inDir(t.Path) {
			w.failf("%s accessed (%s) the path %q outside the session directory", what, t.Op, t.Path)
		}
		switch t.Op {
		case "stat", "open", "openw", "read", "write", "rename", "remove":
			c := filepath.Clean(t.Path)
			if strings.HasSuffix(c, "/sub") {
				w.failf("%s accessed (%s) the path %q", what, t.Op, t.Path)
			}
		}
	}
	w.fs.Touched = nil
}

func sameFiles(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// lookup checks the lookup of a key.
func (w *keyWorld) lookup(key string) {
	res, err := w.m.OnSessionLookup(key)
	r := w.stored[key]
	switch {
	case r == nil && res != nil:
		w.failf("the key %.80q, which was never stored, restored the session %v", key, res.Info())
	case r != nil && err != nil:
		w.failf("looking up the stored key %.80q failed: %v", key, err)
	case r != nil && res == nil:
		w.failf("the stored key %.80q was not found", key)
	case r != nil && !sameInfo(res.Info(), r.info):
		w.failf("the key %.80q restored the session %v", key, res.Info())
	}
	w.checkTouched(fmt.Sprintf("looking up the key %.80q", key))
}

func init() {
	alphabet := func(n int) (out []string) {
		chars := []string{".", "/", "\\", "a", "%", "2", "F", "\x00", " ", "~", "+"}
		level := []string{""}
		for i := 0; i < n; i++ {
			var next []string
			for _, p := range level {
				for _, c := range chars {
					next = append(next, p+c)
				}
			}
			out = append(out, next...)
			level = next
		}
		return
	}

	add(&Scenario{Prop: "C18", Name: "unknown",
		Doc: "every key over an alphabet of path syntax (and a list of path tricks) is looked up in a storage that does not contain it: nothing is found, no path outside the directory is accessed, nothing changes",
		Seq: func(c *Seq) {
			n := 4
			if c.Thorough {
				n = 5
			}
			w := newKeyWorld(c.Fail)
			w.store("b")
			w.fs.Touched = nil
			before := w.outside()
			for i, k := range append(append([]string{}, evilKeys...), alphabet(n)...) {
				if !c.Try("lookup %q", k) {
					continue
				}
				c.Ops++
				w.lookup(k)
				if err := w.m.OnSessionClosed(k); err == nil {
					c.Fail("closing the key %.80q, which was never stored, succeeded", k)
				}
				w.checkTouched(fmt.Sprintf("closing the key %.80q", k))
				if (i < 2000 || c.Only != "") && !sameFiles(before, w.outside()) {
					c.Fail("the key %.80q changed files outside the session directory", k)
				}
			}
			if !sameFiles(before, w.outside()) && c.Only == "" {
				c.Fail("files outside the session directory were changed")
			}
			w.lookup("b")
		}})

	add(&Scenario{Prop: "C18", Name: "aliases",
		Doc: "sessions are stored under every key of the alphabet and the list of path tricks; then each is found only under its own key and closing one leaves the others untouched",
		Seq: func(c *Seq) {
			n := 2
			if c.Thorough {
				n = 3
			}
			keys := append(append([]string{}, evilKeys[1:]...), alphabet(n)...)
			seen := map[string]bool{}
			var uniq []string
			for _, k := range keys {
				if !seen[k] {
					seen[k] = true
					uniq = append(uniq, k)
				}
			}
			if !c.Try("storing all keys") && c.Only == "" {
				return
			}
			w := newKeyWorld(c.Fail)
			before := w.outside()
			w.fs.Touched = nil
			for _, k := range uniq {
				c.Ops++
				if w.store(k) {
					c.Outcome("stored")
				} else {
					c.Outcome("refused")
				}
				w.checkTouched(fmt.Sprintf("storing the key %.80q", k))
			}
			if !w.ok("b0") {
				c.Fail("a plain key was not stored")
			}
			for _, k := range uniq {
				w.lookup(k)
			}
			if !sameFiles(before, w.outside()) {
				c.Fail("storing sessions changed files outside the session directory")
			}
			for i, k := range uniq {
				c.Ops++
				if !c.Try("closing key %d (%.80q) of all stored keys", i, k) && c.Only == "" {
					return
				}
				err := w.m.OnSessionClosed(k)
				if w.stored[k] != nil && err != nil {
					c.Fail("closing the stored key %.80q failed: %v", k, err)
				}
				delete(w.stored, k)
				w.checkTouched(fmt.Sprintf("closing the key %.80q", k))
				if len(uniq) < 500 || i%16 == 0 {
					for _, o := range uniq {
						w.lookup(o)
					}
				} else {
					w.lookup(k)
				}
			}
			if !sameFiles(before, w.outside()) {
				c.Fail("closing sessions changed files outside the session directory")
			}
		}})

	add(&Scenario{Prop: "C18", Name: "pairs",
		Doc: "every pair of keys: a session stored under one is not reachable by looking up or closing the other",
		Seq: func(c *Seq) {
			keys := append(append([]string{}, evilKeys[1:]...), alphabet(2)...)
			keys = append(keys, "a", "b")
			sort.Strings(keys)
			for i, k := range keys {
				if i > 0 && keys[i-1] == k {
					continue
				}
				w := newKeyWorld(c.Fail)
				if !w.store(k) {
					c.Outcome("refused")
				}
				w.fs.Touched = nil
				before := w.outside()
				for _, o := range keys {
					if o == k || !c.Try("stored %.300q, used %.300q", k, o) {
						continue
					}
					c.Ops++
					w.lookup(o)
					if err := w.m.OnSessionClosed(o); err == nil {
						c.Fail("closing the key %.80q, which was never stored, succeeded", o)
					}
					w.checkTouched(fmt.Sprintf("closing the key %.80q", o))
				}
				w.lookup(k)
				if !sameFiles(before, w.outside()) {
					c.Fail("files outside the session directory were changed")
				}
			}
		}})

	add(&Scenario{Prop: "C18", Name: "server", Bounds: [2]int{0, 0},
		Doc: "clients of a server with the default storage restore sessions by path tricks",
		Body: func() {
			keys := append([]string{"a\\", "a/b/../../a", "../sessions/./a"}, evilKeys[1:]...)
			key := keys[vsched.Choose(len(keys))]
			w := newKeyWorld(fail)
			if !w.store("a") {
				fail("the plain key was not stored")
			}
			before := w.outside()
			w.fs.Touched = nil
			t := newTracker()
			s, n := server(t.impl, wwr.ServerOptions{SessionManager: w.m, MessageBufferSize: 8192})
			p := n.Connect("a", connOpts("a", 1))
			vsched.Quiesce()
			p.Send(encNameless(tRestoreSession, reqID(1), key))
			vsched.Quiesce()
			r := repliesTo(p.Got(), reqID(1))
			if len(r) != 1 || r[0].typ != tReplyNotFound && r[0].typ != tReplyInternal {
				fail("restoring the key %.80q was answered with [%s]", key, show(r))
			}
			if s.ActiveSessionsNum() != 0 || t.conns["a"].get().HasSession() {
				fail("restoring the key %.80q assigned a session", key)
			}
			w.checkTouched(fmt.Sprintf("restoring the key %.80q", key))
			p.Send(encNameless(tCloseSession, reqID(2), ""))
			vsched.Quiesce()
			p.Send(encNameless(tRestoreSession, reqID(3), "a"))
			vsched.Quiesce()
			if r := repliesTo(p.Got(), reqID(3)); len(r) != 1 || r[0].typ != tReplyUtf8 || !strings.Contains(r[0].payload, `"of":"\"a\""`) {
				fail("restoring the stored session was answered with [%s]", show(r))
			}
			if !sameFiles(before, w.outside()) {
				fail("files outside the session directory were changed")
			}
			outcome("%v", r[0].typ)
		}})
}

// ok stores a plain key.
func (w *keyWorld) ok(key string) bool {
	ok := w.store(key)
	w.fs.Touched = nil
	return ok
}
