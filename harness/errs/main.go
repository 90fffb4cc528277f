// Driver of the coded errors (C22).
package main

import (
	stderrors "errors"
	"fmt"
	"math/rand"
	"encoding/json"
	"strings"

	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/zzverif/vh"
)

type step struct {
	Op   string `json:"op"`
	Code int    `json:"code"`
}

func layer(s step, e error, n int) error {
	c, m := errors.Code(s.Code), fmt.Sprintf("<%d>", n)
	switch s.Op {
	case "std":
		return stderrors.New(m)
	case "new":
		return errors.New(m)
	case "errorf":
		return errors.Errorf("<%d>", n)
	case "base":
		return errors.NewBase(c, m)
	case "errorc":
		return errors.Errorc(c, m)
	case "errorcf":
		return errors.Errorcf(c, "<%d>", n)
	case "codenew":
		return c.New(m)
	case "codeerrorf":
		return c.Errorf("<%d>", n)
	case "stack":
		return errors.WithStack(e)
	case "fmt":
		return fmt.Errorf("<%d>%w", n, e)
	case "withcode":
		return errors.WithCode(e, c)
	case "wrap":
		return errors.Wrap(e, m)
	case "wrapf":
		return errors.Wrapf(e, "<%d>", n)
	case "wrapc":
		return errors.Wrapc(e, c, m)
	case "wrapcf":
		return errors.Wrapcf(e, c, "<%d>", n)
	case "codewrap":
		return c.Wrap(e, m)
	case "codewrapf":
		return c.Wrapf(e, "<%d>", n)
	}
	vh.Must(fmt.Errorf("no layer %s", s.Op))
	return nil
}

type foreign struct{ n int }

func (f *foreign) Error() string { return "foreign" }

func run(b json.RawMessage, r *rand.Rand) vh.Trace {
	var h []step
	vh.Un(b, &h)
	var t vh.Trace
	var es []error
	for i, s := range h {
		e := vh.Ev{"op": "layer", "x": s.Op, "c": s.Code, "eq": []interface{}{}, "code": -1, "has": false, "text": -1, "shown": -1}
		e["panic"] = vh.Try(func() {
			var in error
			if i > 0 {
				in = es[i-1]
			}
			x := layer(s, in, i+1)
			es = append(es, x)
			c, ok := errors.CoderOf(x)
			e["has"], e["code"] = ok, int(errors.CodeOf(x))
			if ok && int(c.ErrorCode()) != e["code"] {
				e["code"] = -2
			}
			var c2 errors.ErrorCoder
			if errors.AsValue(&c2, x) != ok || (ok && c2 != c) {
				e["code"] = -3
			}
			var n int
			if _, err := fmt.Sscanf(x.Error(), "<%d>", &n); err == nil {
				e["text"] = n
			}
			eq := []interface{}{}
			for _, k := range []int{0, 1, 26, 1004, 7} {
				// an error without a code equals the code of unknown errors
				a, b := errors.Code(k).Equals(x), errors.NewBase(errors.Code(k), "").Equals(x)
				eq = append(eq, vh.Ev{"c": k, "ok": a})
				if a != b {
					eq = append(eq, vh.Ev{"c": k, "ok": b})
				}
			}
			e["eq"] = eq
			// formatting shows the code of a coded error, once, in front
			for _, f := range []string{"%v", "%s", "%+v", "%q"} {
				o := fmt.Sprintf(f, x)
				sh := -1
				var k int
				if strings.HasPrefix(o, "E") {
					if _, err := fmt.Sscanf(o, "E%04d:", &k); err == nil && strings.HasPrefix(o, fmt.Sprintf("E%04d:", k)) {
						sh = k
					}
				}
				if f == "%v" {
					e["shown"] = sh
				} else if sh != e["shown"] && !(f == "%+v" || f == "%q") {
					e["shown"] = -2
				}
				if f == "%+v" && sh != e["shown"] && sh != -1 && e["shown"] != -1 {
					e["shown"] = -3
				}
				if !strings.Contains(o, fmt.Sprintf("<%d>", e["text"])) {
					e["shown"] = -4
				}
				if f == "%+v" && s.Op != "fmt" {
					for j := range es {
						if h[j].Op != "fmt" && !buried(h, j, i) && !strings.Contains(o, fmt.Sprintf("<%d>", j+1)) && hasText(h[j].Op) {
							e["shown"] = -5
						}
					}
				}
			}
		})
		t.Add(e)
		if e["panic"] != "" {
			return t
		}
	}
	other := layer(h[0], nil, 1)
	var f *foreign
	for i := range es {
		for j := range es {
			e := vh.Ev{"op": "is", "i": i, "j": j, "alien": false, "ok": false}
			e["panic"] = vh.Try(func() { e["ok"] = errors.Is(es[i], es[j]) })
			t.Add(e)
		}
		e := vh.Ev{"op": "is", "i": i, "j": 0, "alien": true, "ok": false}
		e["panic"] = vh.Try(func() {
			e["ok"] = errors.Is(es[i], other) || errors.Is(es[i], errors.ErrUnknown) || errors.AsValue(&f, es[i]) || errors.Is(es[i], nil) || errors.AsValue(foreign{}, es[i])
		})
		t.Add(e)
	}
	e := vh.Ev{"op": "nil", "ok": false}
	e["panic"] = vh.Try(func() {
		e["ok"] = errors.Code(h[0].Code).Equals(nil) || errors.NewBase(errors.Code(h[0].Code), "").Equals(nil) || errors.Is(nil, es[0])
	})
	t.Add(e)
	return t
}

// buried: a standard fmt layer above hides what is below it in detailed output
func buried(h []step, j, i int) bool {
	for k := j + 1; k <= i; k++ {
		if h[k].Op == "fmt" {
			return true
		}
	}
	return false
}

func hasText(op string) bool { return op != "stack" && op != "withcode" }

func main() {
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{
		"errs": func(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
			out := make([]vh.Trace, len(scn))
			vh.Par(len(scn), 8, func(i int) { out[i] = run(scn[i], rand.New(rand.NewSource(seed+int64(i)))) })
			return out
		},
	})
}
