package harness

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	wwr "github.com/qbeon/webwire-go"

	"verif/vsched"
)

// vgen builds a fresh value of session information on every call.
type vgen struct {
	name string
	f    func() interface{}
}

func leafValues() []vgen {
	return []vgen{
		{"nil", func() interface{} { return nil }},
		{"int", func() interface{} { return 7 }},
		{"int64", func() interface{} { return int64(-3) }},
		{"uint8", func() interface{} { return uint8(200) }},
		{"float", func() interface{} { return 2.5 }},
		{"string", func() interface{} { return "s" }},
		{"bool", func() interface{} { return true }},
		{"[]string", func() interface{} { return []string{"x", "y"} }},
		{"[]int", func() interface{} { return []int{1, 2, 3}[:2] }},
		{"[]byte", func() interface{} { return []byte{1, 2} }},
		{"[]string(nil)", func() interface{} { return []string(nil) }},
		{"[]interface{}(nil)", func() interface{} { return []interface{}(nil) }},
		{"[]interface{}{}", func() interface{} { return []interface{}{} }},
		{"map(nil)", func() interface{} { return map[string]interface{}(nil) }},
		{"map{}", func() interface{} { return map[string]interface{}{} }},
		{"map[string]string", func() interface{} { return map[string]string{"a": "b", "c": ""} }},
		{"map[string]int", func() interface{} { return map[string]int{"a": 1} }},
		{"map[int]string", func() interface{} { return map[int]string{1: "a", 0: ""} }},
		{"[][]int", func() interface{} { return [][]int{{1}, nil, {2, 3}} }},
		{"map[string][]string", func() interface{} { return map[string][]string{"a": {"x"}, "b": nil} }},
		{"[]map[string]int", func() interface{} { return []map[string]int{{"a": 1}, nil} }},
		{"map[string]map[string]int", func() interface{} { return map[string]map[string]int{"a": {"b": 1}, "n": nil} }},
		{"[][][]string", func() interface{} { return [][][]string{{{"a"}}, {}} }},
		{"map[string]map[string][]int", func() interface{} { return map[string]map[string][]int{"a": {"b": {1}}} }},
		{"[]map[string][]string", func() interface{} { return []map[string][]string{{"a": {"b"}}} }},
		{"map[string][]map[string]int", func() interface{} { return map[string][]map[string]int{"a": {{"b": 1}}} }},
	}
}

// values builds all nestings up to a depth.
func values(depth int) []vgen {
	all := leafValues()
	level := all
	for d := 0; d < depth; d++ {
		var next []vgen
		for _, v := range level {
			v := v
			next = append(next,
				vgen{"[]{" + v.name + "}", func() interface{} { return []interface{}{v.f(), 1} }},
				vgen{"map{" + v.name + "}", func() interface{} { return map[string]interface{}{"k": v.f(), "z": "z"} }},
				vgen{"[]cap{" + v.name + "}", func() interface{} { return append(make([]interface{}, 0, 4), v.f(), v.f()) }},
				vgen{"[]map{" + v.name + "}", func() interface{} { return []map[string]interface{}{{"k": v.f()}, {}} }},
				vgen{"map[][]{" + v.name + "}", func() interface{} { return map[string][]interface{}{"k": {v.f()}} }},
			)
		}
		all = append(all, next...)
		level = next
	}
	return all
}

// spoil overwrites everything reachable from a value.
func spoil(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			spoil(v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			spoil(full.Index(i))
			if i+1 < full.Len() {
				full.Index(i).Set(full.Index(i + 1))
			} else {
				full.Index(i).Set(reflect.Zero(full.Type().Elem()))
			}
			switch full.Type().Elem().Kind() {
			case reflect.Int:
				full.Index(i).SetInt(99)
			case reflect.Uint8:
				full.Index(i).SetUint(99)
			case reflect.String:
				full.Index(i).SetString("spoiled")
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			spoil(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("spoiled"), reflect.Zero(v.Type().Elem()))
		}
	}
}

// ownInfo is an application's session information type.
type ownInfo struct{ m map[string]interface{} }

func newOwnInfo(m map[string]interface{}) *ownInfo {
	i := &ownInfo{m: map[string]interface{}{}}
	for k, v := range m {
		i.m[k] = v
	}
	return i
}

func (i *ownInfo) Fields() (f []string) {
	for k := range i.m {
		f = append(f, k)
	}
	sort.Strings(f)
	return
}
func (i *ownInfo) Copy() wwr.SessionInfo         { return newOwnInfo(i.m) }
func (i *ownInfo) Value(name string) interface{} { return i.m[name] }

func fieldNames(i wwr.SessionInfo) string {
	f := i.Fields()
	sort.Strings(f)
	return fmt.Sprint(f)
}

func init() {
	// probe checks that info behaves like the fields want and that nothing
	// handed out is shared
	probe := func(bad func(string, ...any), what string, info wwr.SessionInfo, want map[string]vgen, depth int) {
		var names []string
		for k := range want {
			names = append(names, k)
		}
		sort.Strings(names)
		var rec func(what string, info wwr.SessionInfo, depth int)
		check := func(what string, info wwr.SessionInfo) {
			if f := fieldNames(info); f != fmt.Sprint(names) {
				bad("%s: the fields are %v, want %v", what, f, names)
			}
			for _, k := range names {
				if got := info.Value(k); !reflect.DeepEqual(got, want[k].f()) {
					bad("%s: field %s is %#v, want %#v", what, k, got, want[k].f())
				}
			}
			if info.Value("nosuchfield") != nil {
				bad("%s: an unknown field has a value", what)
			}
		}
		rec = func(what string, info wwr.SessionInfo, depth int) {
			check(what, info)
			// overwrite what it hands out
			for _, k := range names {
				spoil(reflect.ValueOf(info.Value(k)))
			}
			f := info.Fields()
			for i := range f {
				f[i] = "spoiled"
			}
			m := wwr.SessionInfoToVarMap(info)
			if len(m) != len(names) {
				bad("%s: SessionInfoToVarMap returned %v", what, m)
			}
			for _, k := range names {
				if !reflect.DeepEqual(m[k], want[k].f()) {
					bad("%s: SessionInfoToVarMap: field %s is %#v", what, k, m[k])
				}
			}
			spoil(reflect.ValueOf(m))
			check(what+" after overwriting the values it returned", info)
			if depth > 0 {
				rec("a copy of "+what, info.Copy(), depth-1)
				check(what+" after its copy was used", info)
			}
		}
		rec(what, info, depth)
	}

	build := func(want map[string]vgen) map[string]interface{} {
		d := map[string]interface{}{}
		for k, v := range want {
			d[k] = v.f()
		}
		return d
	}

	add(&Scenario{Prop: "C19", Name: "values",
		Doc: "every nesting of the supported kinds: fields, copies and copies of copies equal the original and stay so when everything handed out, or the original, is overwritten",
		Seq: func(c *Seq) {
			n := 2
			if c.Thorough {
				n = 3
			}
			for _, v := range values(n) {
				if !c.Try("value %s", v.name) {
					continue
				}
				c.Ops++
				want := map[string]vgen{"f": v, "other": leafValues()[5]}
				data := build(want)
				info := wwr.GenericSessionInfoParser(data)
				probe(c.Fail, "the information", info, want, 2)
				// a copy survives changes of the original
				cp := info.Copy()
				sess := wwr.Session{Key: "k", Info: info}
				cl := sess.Clone()
				cl2 := cl.Clone()
				spoil(reflect.ValueOf(data))
				probe(c.Fail, "the copy of an overwritten original", cp, want, 1)
				probe(c.Fail, "the clone of an overwritten session", cl.Info, want, 1)
				probe(c.Fail, "the clone of a clone", cl2.Info, want, 1)
				if cl.Key != "k" || cl == cl2 || cl == &sess {
					c.Fail("the clone is %+v", cl)
				}
			}
		}})

	add(&Scenario{Prop: "C19", Name: "pairs",
		Doc: "every pair of values as two fields, and the same value shared by two fields",
		Seq: func(c *Seq) {
			vs := values(1)
			for i, a := range vs {
				for j, b := range vs {
					if !c.Try("fields %s and %s", a.name, b.name) {
						continue
					}
					if !c.Thorough && (i+j)%3 != 0 {
						continue
					}
					c.Ops++
					want := map[string]vgen{"a": a, "b": b}
					info := wwr.GenericSessionInfoParser(build(want))
					probe(c.Fail, "the information", info, want, 1)
					if i == j {
						shared := a.f()
						info := wwr.GenericSessionInfoParser(map[string]interface{}{"a": shared, "b": shared})
						cp := info.Copy()
						spoil(reflect.ValueOf(shared))
						probe(c.Fail, "the copy of shared values", cp, want, 1)
					}
				}
			}
		}})

	add(&Scenario{Prop: "C19", Name: "empty",
		Doc: "nil and empty information",
		Seq: func(c *Seq) {
			for _, d := range []map[string]interface{}{nil, {}} {
				if !c.Try("information %#v", d) {
					continue
				}
				c.Ops++
				info := wwr.GenericSessionInfoParser(d)
				probe(c.Fail, "empty information", info, map[string]vgen{}, 2)
				s := wwr.Session{Key: "k", Info: info}
				probe(c.Fail, "a clone's empty information", s.Clone().Info, map[string]vgen{}, 2)
			}
			if c.Try("no information") {
				s := &wwr.Session{Key: "k"}
				cl := s.Clone()
				if cl == nil || cl == s || cl.Key != "k" || cl.Info != nil {
					c.Fail("the clone of a session without information is %+v", cl)
				}
				if m := wwr.SessionInfoToVarMap(nil); len(m) != 0 {
					c.Fail("SessionInfoToVarMap(nil) is %v", m)
				}
			}
			if c.Try("no session") {
				var s *wwr.Session
				if s.Clone() != nil {
					c.Fail("a clone of no session")
				}
			}
		}})

	add(&Scenario{Prop: "C19", Name: "keys",
		Doc: "maps with keys of every comparable kind, including nil, NaN and mixed interface keys, nested in each other",
		Seq: func(c *Seq) {
			type any = interface{}
			gens := []vgen{
				{"map[any]any", func() any { return map[any]any{"a": []int{1}, 2: "b", true: nil} }},
				{"map[any]any nil key", func() any { return map[any]any{nil: []any{"x"}, "a": 1} }},
				{"map[any]string nil key", func() any { return map[any]string{nil: "x"} }},
				{"map[bool][]int", func() any { return map[bool][]int{true: {1}, false: nil} }},
				{"map[float64][]string", func() any { return map[float64][]string{1.5: {"a"}, -0.5: {"b"}} }},
				{"map[[2]int]string", func() any { return map[[2]int]string{{1, 2}: "a"} }},
				{"map[any]any of maps", func() any {
					return map[any]any{1: map[any]any{nil: map[any]any{nil: []any{nil, 1}}}, nil: map[int][]int{1: {1, 2}}}
				}},
				{"[]map[any]any", func() any { return []map[any]any{{nil: 1}, nil, {"a": []string{"b"}}} }},
				{"map[int8][]int8", func() any { return map[int8][]int8{-1: {1}, 1: {-1}} }},
				{"map[uint64]map[rune][]string", func() any { return map[uint64]map[rune][]string{1: {'a': {"x"}}, 0: nil} }},
			}
			for _, v := range gens {
				for _, in := range []vgen{v,
					{"[]{" + v.name + "}", func() any { return []any{v.f(), nil} }},
					{"map{" + v.name + "}", func() any { return map[string]any{"k": v.f()} }},
					{"map[any]{" + v.name + "}", func() any { return map[any]any{nil: v.f(), "k": v.f()} }},
				} {
					if !c.Try("value %s", in.name) {
						continue
					}
					c.Ops++
					want := map[string]vgen{"f": in}
					data := build(want)
					info := wwr.GenericSessionInfoParser(data)
					probe(c.Fail, "the information", info, want, 2)
					cp := info.Copy()
					spoil(reflect.ValueOf(data))
					probe(c.Fail, "the copy of an overwritten original", cp, want, 1)
				}
			}
			if c.Try("NaN keys") {
				c.Ops++
				nan := math.NaN()
				v := map[float64][]int{nan: {7}, 1: {8}}
				info := wwr.GenericSessionInfoParser(map[string]any{"f": v})
				cp := info.Copy()
				got, ok := info.Value("f").(map[float64][]int)
				for i, g := range []any{got, cp.Value("f")} {
					m, isMap := g.(map[float64][]int)
					n, sum := 0, 0
					for _, e := range m {
						n++
						for j := range e {
							sum += e[j]
							e[j] = 99
						}
					}
					if !ok || !isMap || n != 2 || sum != 15 {
						c.Fail("copy %d of %v is %v", i, v, g)
					}
				}
				for _, e := range v {
					if e[0] == 99 {
						c.Fail("changing a copy changed the original: %v", v)
					}
				}
			}
		}})

	add(&Scenario{Prop: "C19", Name: "custom", Bounds: [2]int{0, 0},
		Doc: "information objects of an application's own mutable type (empty or not, by the creation, the restoration parser or a clone): changing the object handed out, or the original's clone, never changes the connection's session or other copies",
		Body: func() {
			t := newTracker()
			sm := newStore()
			o := sm.options()
			k := vsched.Choose(3)
			start := []map[string]interface{}{nil, {}, {"f": "v"}}[k]
			o.SessionInfoParser = func(m map[string]interface{}) wwr.SessionInfo { return newOwnInfo(m) }
			srv, n := server(t.impl, o)
			p := n.Connect("a", connOpts("a", 1))
			c := t.conns["a"].get()
			vsched.Quiesce()
			restored := vsched.Choose(2) == 1
			if restored {
				sm.recs["K"] = &srec{creation: sessTime, lookup: sessTime, info: start}
				p.Send(encNameless(tRestoreSession, reqID(1), "K"))
				vsched.Quiesce()
			} else if err := c.CreateSession(newOwnInfo(start)); err != nil {
				fail("CreateSession: %v", err)
			}
			fields := func(what string, i wwr.SessionInfo, want map[string]interface{}) {
				got := map[string]interface{}{}
				if i != nil {
					for _, f := range i.Fields() {
						got[f] = i.Value(f)
					}
				}
				if len(got) != len(want) {
					fail("%s has the fields %v, want %v", what, got, want)
				}
				for f, v := range want {
					if got[f] != v {
						fail("%s has the fields %v, want %v", what, got, want)
					}
				}
			}
			if restored && start == nil {
				// there may be no object at all
				start = map[string]interface{}{}
			}
			s1, s2 := c.Session(), c.Session()
			cl := s1.Clone()
			fields("the session", s1.Info, start)
			fields("the clone", cl.Info, start)
			set := func(i wwr.SessionInfo, v string) {
				if oi, ok := i.(*ownInfo); ok {
					oi.m["f"] = v
					oi.m["new"] = v
				}
			}
			set(s1.Info, "1")
			fields("another copy of the session", s2.Info, start)
			fields("the clone", cl.Info, start)
			fields("a later copy of the session", c.Session().Info, start)
			set(cl.Info, "2")
			cl2 := cl.Clone()
			set(cl2.Info, "3")
			set(cl.Clone().Info, "4")
			if cl.Info != nil {
				fields("the changed clone", cl.Info, map[string]interface{}{"f": "2", "new": "2"})
				fields("the changed session object", s1.Info, map[string]interface{}{"f": "1", "new": "1"})
			}
			fields("a later copy of the session", c.Session().Info, start)
			for _, f := range []string{"f", "new"} {
				if v := c.SessionInfo(f); v != start[f] {
					fail("SessionInfo(%s) is %v, want %v", f, v, start[f])
				}
			}
			// the handlers get copies, too
			for _, x := range srv.SessionConnections(c.SessionKey()) {
				set(x.Session().Info, "5")
			}
			fields("a later copy of the session", c.Session().Info, start)
			m := wwr.SessionInfoToVarMap(c.Session().Info)
			if m != nil {
				m["f"], m["new"] = "6", "6"
			}
			fields("a later copy of the session", c.Session().Info, start)
		}})

	add(&Scenario{Prop: "C19", Name: "connection", Bounds: [2]int{0, 0},
		Doc: "the session object, its information and fields handed out by a connection whose session was created or restored",
		Body: func() {
			vs := values(1)
			v := vs[vsched.Choose(len(vs))]
			restored := vsched.Choose(2) == 1
			want := map[string]vgen{"f": v, "s": leafValues()[5]}
			t := newTracker()
			sm := newStore()
			s, n := server(t.impl, sm.options())
			p := n.Connect("a", connOpts("a", 1))
			c := t.conns["a"].get()
			vsched.Quiesce()
			if restored {
				data := build(want)
				sm.recs["K"] = &srec{creation: sessTime, lookup: sessTime, info: data}
				p.Send(encNameless(tRestoreSession, reqID(1), "K"))
				vsched.Quiesce()
			} else {
				switch v.name {
				case "map[int]string":
				}
				if err := c.CreateSession(wwr.GenericSessionInfoParser(build(want))); err != nil {
					fail("CreateSession: %v", err)
				}
			}
			check := func(what string) {
				sess := c.Session()
				if sess == nil || sess.Key != c.SessionKey() {
					fail("%s: the session is %+v", what, sess)
				}
				probe(fail, what+": the session's information", sess.Info, want, 1)
				for k, w := range want {
					if !reflect.DeepEqual(c.SessionInfo(k), w.f()) {
						fail("%s: SessionInfo(%s) is %#v, want %#v", what, k, c.SessionInfo(k), w.f())
					}
				}
			}
			check("first")
			for k := range want {
				spoil(reflect.ValueOf(c.SessionInfo(k)))
			}
			sess := c.Session()
			key := sess.Key
			sess.Key = "spoiled"
			sess.Creation = sessTime.Add(1)
			sess.Info = nil
			if c.SessionKey() != key || c.SessionCreation().Equal(sessTime.Add(1)) {
				fail("changing the session object changed the connection's session")
			}
			check("after overwriting everything")
			if n := s.SessionConnectionsNum(key); n != 1 {
				fail("session %s has %d connections", key, n)
			}
			outcome("%v", restored)
		}})
}
