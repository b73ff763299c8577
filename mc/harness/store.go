package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// store is a session manager and key generator whose calls are logged.
type store struct {
	o       vsched.Obj
	nextKey int
	forced  string         // the next generated key
	genBy   map[int]string // the last key generated by each thread
	recs    map[string]*srec
	log     []string
	slow    bool // hooks contain a scheduling point

	failCreate, failLookup, failClose error
	panicClose, badInfo               bool
	// variants of the failures
	failWith  error
	panicWith any
	both      bool // a failing lookup returns a result, too
	onCreate  func(wwr.Connection)
	history   *hist
}

var errHook = errors.New(secret)

// typedErrs are errors of all kinds known to the library.
var typedErrs = []error{
	errHook,
	customErr{},
	wwr.ErrRequest{Code: secret, Message: secret},
	&wwr.ErrRequest{Code: secret, Message: secret},
	wwr.ErrSessionNotFound{},
	wwr.ErrMaxSessConnsReached{},
	wwr.ErrSessionsDisabled{},
	wwr.ErrServerShutdown{},
	wwr.ErrInternal{},
	wwr.ErrBufferOverflow{},
	wwr.ErrDialTimeout{},
	wwr.ErrDisconnected{Cause: errHook},
	wwr.ErrProtocol{Cause: errHook},
	wwr.ErrTimeout{Cause: errHook},
	wwr.ErrCanceled{Cause: errHook},
	wwr.ErrDeadlineExceeded{Cause: errHook},
	wwr.ErrTransmission{Cause: errHook},
	context.Canceled,
	io.EOF,
	os.ErrNotExist,
}

func newStore() *store {
	s := &store{recs: map[string]*srec{}, genBy: map[int]string{}}
	s.o.Name = "store"
	return s
}

func (s *store) options() wwr.ServerOptions {
	return wwr.ServerOptions{SessionManager: s, SessionKeyGenerator: s, MessageBufferSize: 1024}
}

// Generate implements SessionKeyGenerator.
func (s *store) Generate() (k string) {
	vsched.Op("genkey", &s.o, nil, func() {
		s.nextKey++
		k = fmt.Sprintf("S%d", s.nextKey)
		if s.forced != "" {
			k = s.forced
		}
		s.genBy[vsched.ThreadID()] = k
	})
	return
}

func (s *store) note(format string, args ...any) {
	l := fmt.Sprintf(format, args...)
	if s.history != nil {
		s.history.add("%s", l)
	}
	vsched.Op("hook", &s.o, nil, func() { s.log = append(s.log, l) })
}

// srec is a stored session.
type srec struct {
	creation, lookup time.Time
	info             map[string]interface{}
	lookups          int
}

// put stores a session as if created earlier.
func (s *store) put(key string) {
	vsched.Op("store.put", &s.o, nil, func() {
		s.recs[key] = &srec{creation: sessTime, lookup: sessTime, info: map[string]interface{}{"k": key}}
	})
}

var sessTime = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

// OnSessionCreated implements SessionManager.
func (s *store) OnSessionCreated(c wwr.Connection) error {
	// the hook runs on the creating thread; the session may have been closed
	// or replaced meanwhile
	key := ""
	vsched.Op("hook", &s.o, nil, func() { key = s.genBy[vsched.ThreadID()] })
	sess := c.Session()
	if sess != nil && sess.Key != key {
		sess = nil
	}
	s.note("creating:%s", key)
	if s.onCreate != nil {
		s.onCreate(c)
	}
	if s.failCreate != nil {
		s.note("created:%s", key)
		return s.failCreate
	}
	if sess != nil {
		rec := &srec{creation: sess.Creation, lookup: sess.LastLookup, info: wwr.SessionInfoToVarMap(sess.Info)}
		vsched.Op("store.create", &s.o, nil, func() { s.recs[key] = rec })
	}
	s.note("created:%s", key)
	return nil
}

// OnSessionLookup implements SessionManager.
func (s *store) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	s.note("lookup:%s", key)
	if s.failLookup != nil {
		if s.both {
			return wwr.NewSessionLookupResult(sessTime, sessTime, map[string]interface{}{"x": secret}), s.failLookup
		}
		return nil, s.failLookup
	}
	var rec *srec
	vsched.Op("store.lookup", &s.o, nil, func() {
		if r := s.recs[key]; r != nil {
			c := *r
			rec = &c
			r.lookups++
			r.lookup = sessTime.Add(time.Duration(r.lookups) * time.Hour)
		}
	})
	if rec == nil {
		return nil, nil
	}
	var info map[string]interface{}
	if s.badInfo {
		info = map[string]interface{}{secret: func() {}}
	} else if rec.info != nil {
		info = map[string]interface{}{}
		for k, v := range rec.info {
			info[k] = v
		}
	}
	return wwr.NewSessionLookupResult(rec.creation, rec.lookup, info), nil
}

// OnSessionClosed implements SessionManager.
func (s *store) OnSessionClosed(key string) error {
	s.note("closed:%s", key)
	vsched.Op("store.close", &s.o, nil, func() { delete(s.recs, key) })
	if s.panicClose {
		if s.panicWith != nil {
			panic(s.panicWith)
		}
		panic(secret)
	}
	return s.failClose
}

func (s *store) count(e string) (n int) {
	vsched.Op("store.look", &s.o, nil, func() {
		for _, l := range s.log {
			if l == e {
				n++
			}
		}
	})
	return
}

func (s *store) closedCount(key string) int { return s.count("closed:" + key) }

func (s *store) events() (l []string) {
	vsched.Op("store.look", &s.o, nil, func() { l = append(l, s.log...) })
	return
}

// inject makes the hooks of a session operation fail.
func (s *store) inject(o sessOp) {
	vsched.Op("store.inject", &s.o, nil, func() {
		s.failCreate, s.failLookup, s.failClose, s.panicClose, s.badInfo = nil, nil, nil, false, false
		switch o.fault {
		case "error":
			e := errHook
			if s.failWith != nil {
				e = s.failWith
			}
			s.failCreate, s.failLookup, s.failClose = e, e, e
		case "panic":
			s.panicClose = true
		case "badinfo":
			s.badInfo = true
		}
	})
}
