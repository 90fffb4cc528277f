package vh

import (
	"fmt"
	"sort"
	"strings"
)

// Serialize is the transaction serialization of ICON (join of sorted keys), without
// the signature.
func Serialize(m map[string]interface{}) string { return serialize(m, true) }

func serialize(v interface{}, top bool) string {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			if !(top && k == "signature") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = serialize(k, false) + "." + serialize(x[k], false)
		}
		r := strings.Join(ks, ".")
		if top {
			return r
		}
		return "{" + r + "}"
	case []interface{}:
		r := []string{}
		for _, e := range x {
			r = append(r, serialize(e, false))
		}
		return "[" + strings.Join(r, ".") + "]"
	case string:
		r := strings.NewReplacer("\\", "\\\\", ".", "\\.", "{", "\\{", "}", "\\}", "[", "\\[", "]", "\\]")
		return r.Replace(x)
	case nil:
		return "\\0"
	}
	return fmt.Sprint(v)
}
