package main

import "strings"

var sqlVerbs = map[string]bool{"select": true, "insert": true, "update": true, "delete": true, "create": true, "pragma": true, "vacuum": true}

// canonSQL rewrites an SQL statement so that layout, letter case of keywords
// and names, and the final semicolon do not matter. Other strings are kept.
func canonSQL(s string) string {
	f := strings.Fields(s)
	if len(f) < 2 || !sqlVerbs[strings.ToLower(f[0])] {
		return s
	}
	if v := strings.ToLower(f[0]); v != "pragma" && !strings.ContainsAny(s, "=(*,?") && v != "delete" && v != "vacuum" && !strings.Contains(strings.ToLower(s), " from ") {
		return s
	}
	return strings.TrimSpace(strings.Join(sqlTokens(s), " "))
}

func sqlTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				j++
			}
			if j < len(s) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case isWord(c):
			j := i
			for j < len(s) && isWord(s[j]) {
				j++
			}
			out = append(out, strings.ToLower(s[i:j]))
			i = j
		case strings.IndexByte("<>=!|", c) >= 0:
			j := i
			for j < len(s) && strings.IndexByte("<>=!|", s[j]) >= 0 {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, s[i:i+1])
			i++
		}
	}
	for len(out) > 0 && out[len(out)-1] == ";" {
		out = out[:len(out)-1]
	}
	return out
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
