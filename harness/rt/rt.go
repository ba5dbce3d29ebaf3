// Package rt holds plain Go definitions of library functions whose standard
// implementation is assembly; the symbolic executor runs these instead.
package rt

func Index(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func LastIndex(s, sub string) int {
	n := len(sub)
	r := -1
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			r = i
		}
	}
	return r
}

func IndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(s string, c byte) int {
	r := -1
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			r = i
		}
	}
	return r
}

func Contains(s, sub string) bool { return Index(s, sub) >= 0 }

func ContainsRune(s string, r rune) bool {
	for _, c := range s {
		if c == r {
			return true
		}
	}
	return false
}

func ContainsAny(s, chars string) bool {
	for _, c := range chars {
		if ContainsRune(s, c) {
			return true
		}
	}
	return false
}

func Count(s, sub string) int {
	n := len(sub)
	if n == 0 {
		k := 0
		for range s {
			k++
		}
		return k + 1
	}
	k := 0
	for i := 0; i+n <= len(s); {
		if s[i:i+n] == sub {
			k++
			i += n
		} else {
			i++
		}
	}
	return k
}

func HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }
func HasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }

func TrimPrefix(s, p string) string {
	if HasPrefix(s, p) {
		return s[len(p):]
	}
	return s
}

func TrimSuffix(s, p string) string {
	if HasSuffix(s, p) {
		return s[:len(s)-len(p)]
	}
	return s
}

func SplitN(s, sep string, n int) []string {
	if n == 0 {
		return nil
	}
	var out []string
	if sep == "" {
		for len(s) > 0 && (n < 0 || len(out) < n-1) {
			w := 1
			for i := range s {
				if i > 0 {
					w = i
					break
				}
				w = len(s)
			}
			out = append(out, s[:w])
			s = s[w:]
		}
		if len(s) > 0 {
			out = append(out, s)
		}
		return out
	}
	for n < 0 || len(out) < n-1 {
		i := Index(s, sep)
		if i < 0 {
			break
		}
		out = append(out, s[:i])
		s = s[i+len(sep):]
	}
	return append(out, s)
}

func Split(s, sep string) []string { return SplitN(s, sep, -1) }

func Join(e []string, sep string) string {
	r := ""
	for i, x := range e {
		if i > 0 {
			r += sep
		}
		r += x
	}
	return r
}

func Cut(s, sep string) (before, after string, found bool) {
	if i := Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

func Repeat(s string, n int) string {
	if n < 0 {
		panic("strings: negative Repeat count")
	}
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}

func Compare(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func Clone(s string) string { return s }
