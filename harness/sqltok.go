package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// An independent PostgreSQL tokenizer (standard_conforming_strings = on), written from the lexical rules of the
// PostgreSQL manual. It shares no code with loukoum.

type TokKind int

const (
	TkIdent   TokKind = iota // unquoted identifier or keyword
	TkQuoted                 // delimited identifier, Text is decoded
	TkString                 // string constant, Text is decoded
	TkNumber                 // numeric constant
	TkParam                  // $n, Text is n
	TkNamed                  // :name, Text is name
	TkOp                     // operator
	TkPunct                  // ( ) , ; .  [ ]
	TkComment                // -- comment, Text is its content
)

type Tok struct {
	Kind       TokKind
	Text       string
	Start, End int // byte offsets
}

func (t Tok) String() string { return fmt.Sprintf("%d:%q", t.Kind, t.Text) }

func isIdentStart(c byte) bool {
	return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c >= 0x80
}

func isIdentPart(c byte) bool { return isIdentStart(c) || (c >= '0' && c <= '9') || c == '$' }

func isDigitB(c byte) bool { return c >= '0' && c <= '9' }

const opChars = "+-*/<>=~!@#%^&|`?"

// tokenize splits a SQL text. Comments are kept as tokens.
func tokenize(s string) ([]Tok, error) {
	var out []Tok
	i := 0
	add := func(k TokKind, text string, start, end int) { out = append(out, Tok{k, text, start, end}) }
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			j := i + 2
			for j < len(s) && s[j] != '\n' && s[j] != '\r' {
				j++
			}
			add(TkComment, s[i+2:j], i, j)
			i = j
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			depth, j := 1, i+2
			for j < len(s) && depth > 0 {
				if strings.HasPrefix(s[j:], "*/") {
					depth--
					j += 2
				} else if strings.HasPrefix(s[j:], "/*") {
					depth++
					j += 2
				} else {
					j++
				}
			}
			if depth > 0 {
				return out, fmt.Errorf("unterminated block comment at %d", i)
			}
			add(TkComment, s[i:j], i, j)
			i = j
		case c == '"':
			var b strings.Builder
			j := i + 1
			closed := false
			for j < len(s) {
				if s[j] == '"' {
					if j+1 < len(s) && s[j+1] == '"' {
						b.WriteByte('"')
						j += 2
						continue
					}
					closed = true
					j++
					break
				}
				b.WriteByte(s[j])
				j++
			}
			if !closed {
				return out, fmt.Errorf("unterminated delimited identifier at %d", i)
			}
			if b.Len() == 0 {
				return out, fmt.Errorf("zero-length delimited identifier at %d", i)
			}
			add(TkQuoted, b.String(), i, j)
			i = j
		case c == '\'':
			text, j, err := scanString(s, i, false)
			if err != nil {
				return out, err
			}
			add(TkString, text, i, j)
			i = j
		case (c == 'E' || c == 'e') && i+1 < len(s) && s[i+1] == '\'':
			text, j, err := scanString(s, i+1, true)
			if err != nil {
				return out, err
			}
			add(TkString, text, i, j)
			i = j
		case isIdentStart(c):
			j := i
			for j < len(s) && isIdentPart(s[j]) {
				j++
			}
			add(TkIdent, s[i:j], i, j)
			i = j
		case isDigitB(c) || (c == '.' && i+1 < len(s) && isDigitB(s[i+1])):
			j := i
			for j < len(s) && isDigitB(s[j]) {
				j++
			}
			if j < len(s) && s[j] == '.' {
				j++
				for j < len(s) && isDigitB(s[j]) {
					j++
				}
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < len(s) && (s[k] == '+' || s[k] == '-') {
					k++
				}
				if k < len(s) && isDigitB(s[k]) {
					for k < len(s) && isDigitB(s[k]) {
						k++
					}
					j = k
				}
			}
			if j < len(s) && isIdentStart(s[j]) {
				return out, fmt.Errorf("trailing junk after number at %d", i)
			}
			add(TkNumber, s[i:j], i, j)
			i = j
		case c == '$':
			j := i + 1
			for j < len(s) && isDigitB(s[j]) {
				j++
			}
			if j == i+1 {
				return out, fmt.Errorf("unexpected $ at %d", i)
			}
			if j < len(s) && isIdentStart(s[j]) {
				return out, fmt.Errorf("trailing junk after parameter at %d", i)
			}
			add(TkParam, s[i+1:j], i, j)
			i = j
		case c == ':' && i+1 < len(s) && s[i+1] == ':':
			add(TkOp, "::", i, i+2)
			i += 2
		case c == ':' && i+1 < len(s) && isIdentStart(s[i+1]):
			j := i + 1
			for j < len(s) && isIdentPart(s[j]) {
				j++
			}
			add(TkNamed, s[i+1:j], i, j)
			i = j
		case strings.IndexByte("(),;.[]:", c) >= 0:
			add(TkPunct, string(c), i, i+1)
			i++
		case strings.IndexByte(opChars, c) >= 0:
			j := i
			for j < len(s) && strings.IndexByte(opChars, s[j]) >= 0 {
				if j > i && (strings.HasPrefix(s[j:], "--") || strings.HasPrefix(s[j:], "/*")) {
					break
				}
				j++
			}
			// A multi-character operator cannot end in + or - unless it contains a special character.
			for j-i > 1 && (s[j-1] == '+' || s[j-1] == '-') && !strings.ContainsAny(s[i:j], "~!@#%^&|`?") {
				j--
			}
			add(TkOp, s[i:j], i, j)
			i = j
		default:
			r, _ := utf8.DecodeRuneInString(s[i:])
			return out, fmt.Errorf("unexpected character %q at %d", r, i)
		}
	}
	return out, nil
}

// scanString reads a string constant which starts at s[i] == '\”.
func scanString(s string, i int, escape bool) (string, int, error) {
	var b strings.Builder
	j := i + 1
	for j < len(s) {
		c := s[j]
		if c == '\'' {
			if j+1 < len(s) && s[j+1] == '\'' {
				b.WriteByte('\'')
				j += 2
				continue
			}
			return b.String(), j + 1, nil
		}
		if escape && c == '\\' {
			if j+1 >= len(s) {
				break
			}
			n := s[j+1]
			switch n {
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'x':
				k, v := j+2, 0
				for k < len(s) && k < j+4 && hexVal(s[k]) >= 0 {
					v = v*16 + hexVal(s[k])
					k++
				}
				if k == j+2 {
					b.WriteByte('x')
				} else {
					b.WriteByte(byte(v))
				}
				j = k
				continue
			case 'u', 'U':
				w := 4
				if n == 'U' {
					w = 8
				}
				if j+2+w > len(s) {
					return "", 0, fmt.Errorf("invalid unicode escape at %d", j)
				}
				v := 0
				for k := j + 2; k < j+2+w; k++ {
					h := hexVal(s[k])
					if h < 0 {
						return "", 0, fmt.Errorf("invalid unicode escape at %d", j)
					}
					v = v*16 + h
				}
				b.WriteRune(rune(v))
				j += 2 + w
				continue
			default:
				if n >= '0' && n <= '7' {
					k, v := j+1, 0
					for k < len(s) && k < j+4 && s[k] >= '0' && s[k] <= '7' {
						v = v*8 + int(s[k]-'0')
						k++
					}
					b.WriteByte(byte(v))
					j = k
					continue
				}
				b.WriteByte(n)
			}
			j += 2
			continue
		}
		b.WriteByte(c)
		j++
	}
	return "", 0, fmt.Errorf("unterminated string constant at %d", i)
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}
