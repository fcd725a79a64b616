package core

import (
	"github.com/use-go/gosips/core"

	"verif/harness/sym"
)

const tokenChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.!%*_+`'~"

func isTok(c byte) bool { return sym.InSet(c, tokenChars) }
func isDig(c byte) bool { return c >= '0' && c <= '9' }

// run is the length of the longest prefix of s whose bytes satisfy f.
func run(s string, f func(byte) bool) int {
	n := 0
	for n < len(s) && f(s[n]) {
		n++
	}
	return n
}

// at returns a lexer over a string of n bytes standing at position p, and the rest of the text.
func at(max int) (core.Lexer, string, int) {
	n := sym.Choice(max + 1)
	s := sym.String(n)
	l := core.NewCoreLexer("charLexer", s)
	p := sym.Choice(n + 1)
	l.ConsumeK(p)
	return l, s[p:], p
}

func still(l core.Lexer, rest string, p int) {
	sym.Assert(l.MarkInputPosition() == p, "looking ahead does not move")
	sym.Assert(l.GetRest() == rest, "the rest of the input is unchanged")
}

// H_C01_chars: any text of 0..6 (thorough 8) bytes at any position: character look-ahead, end test and classification.
func H_C01_chars() {
	l, rest, p := at(sym.Bound(6, 8))
	sym.Assert(l.HasMoreChars() == (len(rest) > 0), "more characters exactly before the end")
	k := sym.Choice(3)
	c, err := l.LookAheadK(k)
	sym.Assert((err == nil) == (k < len(rest)), "look-ahead fails exactly beyond the end")
	if err == nil {
		sym.Assert(c == rest[k], "look-ahead shows the k-th next byte")
		sym.Assert(l.IsDigit(c) == isDig(c), "digits")
		sym.Assert(l.IsAlpha(c) == (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'), "letters")
		sym.Assert(l.IsHexDigit(c) == (isDig(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'), "hexadecimal digits")
		sym.Assert(l.CharAsString(c) == string([]byte{c}), "one character as text")
	} else {
		sym.Assert(c == 0, "nothing beyond the end")
	}
	sym.Assert(l.StartsId() == (len(rest) > 0 && isTok(rest[0])), "a token starts exactly at a token character")
	m := len(rest)
	if k < m {
		m = k
	}
	sym.Assert(l.NCharAsString(k) == rest[:m], "the next characters as text")
	still(l, rest, p)
}

// H_C01_token: tokens and token peeks at any position of any text of 0..6 (thorough 8) bytes.
func H_C01_token() {
	l, rest, p := at(sym.Bound(6, 8))
	n := run(rest, isTok)
	sym.Assert(l.PeekNextId() == rest[:n], "peeking a token")
	still(l, rest, p)
	t, err := l.PeekNextToken()
	sym.Assert((err == nil) == (len(rest) > 0), "a token or the end")
	still(l, rest, p)
	if err == nil {
		m := n
		if n == 0 {
			m = 1
			sym.Assert(t.GetTokenType() == int(rest[0]), "the type of a separator is its byte")
		} else {
			sym.Assert(t.GetTokenType() == core.CORELEXER_ID, "the type of a token")
		}
		sym.Assert(t.GetTokenValue() == rest[:m], "the value of the peeked token")
		if sym.Bool() {
			l.Consume()
			still(l, rest[m:], p+m)
			return
		}
	}
	switch sym.Choice(3) {
	case 0:
		sym.Assert(l.Ttoken() == rest[:n], "a token is the longest run of token characters")
	case 1:
		sym.Assert(l.GetNextId() == rest[:n], "the next token is the longest run of token characters")
	case 2:
		n = run(rest, func(c byte) bool { return isTok(c) || c == ' ' || c == '\t' })
		sym.Assert(l.TtokenAllowSpace() == rest[:n], "a token with spaces is the longest such run")
	}
	still(l, rest[n:], p+n)
}

// H_C01_peek2: peeking several tokens keeps their order and does not move.
func H_C01_peek2() {
	l, rest, p := at(sym.Bound(3, 5))
	k := 1 + sym.Choice(3)
	ts, err := l.PeekNextTokenK(k)
	still(l, rest, p)
	o := 0
	for i := 0; i < k; i++ {
		if o >= len(rest) {
			sym.Assert(err != nil, "too few tokens is an error")
			return
		}
		m := run(rest[o:], isTok)
		if m == 0 {
			m = 1
		}
		sym.Assert(ts[i] != nil && ts[i].GetTokenValue() == rest[o:o+m], "the i-th token")
		o += m
	}
	sym.Assert(err == nil, "enough tokens")
	l.Consume()
	still(l, rest[o:], p+o)
}

// H_C01_match: matching consumes exactly what it matches and reports anything else as an error.
func H_C01_match() {
	l, rest, p := at(sym.Bound(6, 8))
	switch sym.Choice(4) {
	case 0:
		n := run(rest, isTok)
		t, err := l.Match(core.CORELEXER_ID)
		sym.Assert((err == nil) == (n > 0), "a token matches exactly when there is one")
		if err == nil {
			sym.Assert(t.GetTokenValue() == rest[:n] && t.GetTokenType() == core.CORELEXER_ID, "matched token")
			sym.Assert(l.GetNextToken().GetTokenValue() == rest[:n], "the matched token is kept")
		}
		still(l, rest[n:], p+n)
	case 1:
		c := sym.Byte()
		t, err := l.Match(int(c))
		good := len(rest) > 0 && rest[0] == c
		sym.Assert((err == nil) == good, "a character matches exactly itself")
		if good {
			sym.Assert(t.GetTokenValue() == rest[:1], "matched character")
			still(l, rest[1:], p+1)
		} else {
			still(l, rest, p)
		}
	case 2:
		t, err := l.Match(core.CORELEXER_DIGIT)
		good := len(rest) > 0 && isDig(rest[0])
		sym.Assert((err == nil) == good, "a digit matches exactly a digit")
		if good {
			sym.Assert(t.GetTokenValue() == rest[:1], "matched digit")
			still(l, rest[1:], p+1)
		} else {
			still(l, rest, p)
		}
	case 3:
		t, err := l.Match(core.CORELEXER_ALPHA)
		good := len(rest) > 0 && (rest[0] >= 'a' && rest[0] <= 'z' || rest[0] >= 'A' && rest[0] <= 'Z')
		sym.Assert((err == nil) == good, "a letter matches exactly a letter")
		if good {
			sym.Assert(t.GetTokenValue() == rest[:1], "matched letter")
			still(l, rest[1:], p+1)
		} else {
			still(l, rest, p)
		}
	}
}

// H_C01_keyword: keywords match in any letter case, only in their own lexer table, and stay tokens elsewhere.
func H_C01_keyword() {
	n := sym.Choice(sym.Bound(5, 6))
	s := sym.String(n)
	l := core.NewCoreLexer("a", s)
	l.AddLexer("a")
	l.AddKeyword("SIP", core.CORELEXER_START+1)
	l.AddLexer("b")
	l.AddKeyword("TEL", core.CORELEXER_START+2)
	name, kw := "a", "SIP"
	id := core.CORELEXER_START + 1
	if sym.Bool() {
		name, kw, id = "b", "TEL", core.CORELEXER_START+2
	}
	l.SelectLexer(name)
	sym.Assert(l.GetLexerName() == name, "the selected table")
	sym.Assert(l.LookupToken(id) == kw && l.LookupToken(core.CORELEXER_START+1) == "SIP" && len(l.CurrentLexer()) == 1, "keywords by number")
	m := run(s, isTok)
	is := m == 3
	for i := 0; i < 3 && is; i++ {
		is = s[i] == kw[i] || s[i] == kw[i]+32
	}
	t, err := l.PeekNextToken()
	if n > 0 {
		sym.Assert(err == nil && (t.GetTokenType() == id) == is, "keyword type exactly for the keyword in any case")
	}
	still(l, s, 0)
	t, err = l.Match(id)
	sym.Assert((err == nil) == is, "keyword matches exactly in any case")
	if is {
		sym.Assert(t.GetTokenValue() == s[:m] && t.GetTokenType() == id, "the text as written")
		sym.Assert(l.GetNextToken().GetTokenValue() == s[:m], "the matched keyword is kept")
		still(l, s[m:], m)
	}
}

// H_C01_lines: the lines of any text of 0..7 (thorough 10) bytes put together are the text, and each ends at its newline.
func H_C01_lines() {
	n := sym.Choice(sym.Bound(8, 11))
	s := sym.String(n)
	l := core.NewCoreLexer("charLexer", s)
	o := 0
	for o < n {
		e := run(s[o:], func(c byte) bool { return c != '\n' })
		if o+e < n {
			e++
		}
		sym.Assert(l.PeekLine() == s[o:o+e], "peeking a line")
		still(l, s[o:], o)
		sym.Assert(l.GetLine() == s[o:o+e], "a line ends with its newline")
		o += e
		still(l, s[o:], o)
	}
	sym.Assert(!l.HasMoreChars() && l.GetLine() == "" && l.PeekLine() == "", "no line at the end")
	t := core.NewStringTokenizer(s)
	ls := t.GetLines()
	o = 0
	for i := 0; i < len(ls); i++ {
		x := ls[i]
		sym.Assert(s[o:o+len(x)] == x, "lines in order")
		o += len(x)
	}
	sym.Assert(o == n, "lines cover the text")
}

// H_C01_history: any 3 (thorough 4) operations on any 5 (6) bytes: the position only moves forward, inside the text,
// by the bytes that were returned, and a rewind to a marked position restores the rest.
func H_C01_history() {
	n := sym.Bound(5, 6)
	s := sym.String(n)
	l := core.NewCoreLexer("charLexer", s)
	mark := 0
	k := sym.Bound(3, 4)
	for i := 0; i < k; i++ {
		p := l.MarkInputPosition()
		switch sym.Choice(11) {
		case 0:
			l.QuotedString()
		case 1:
			l.Comment()
		case 2:
			l.Number()
		case 3:
			l.SPorHT()
		case 4:
			l.GetString('a')
		case 5:
			l.GetLine()
		case 6:
			l.Ttoken()
		case 7:
			l.ByteStringNoComma()
		case 8:
			mark = p
		case 9:
			l.PeekNextTokenK(1 + sym.Choice(3))
			still(l, s[p:], p)
			l.Consume()
		case 10:
			id := l.PeekNextId()
			still(l, s[p:], p)
			l.Consume()
			still(l, s[p+len(id):], p+len(id))
		}
		q := l.MarkInputPosition()
		sym.Assert(q >= p && q <= n, "the position moves forward inside the text")
		sym.Assert(l.GetRest() == s[q:], "the rest starts at the position")
	}
	l.RewindInputPosition(mark)
	still(l, s[mark:], mark)
	sym.Assert(l.GetBuffer() == s, "the buffer never changes")
}

// scanned finds the end of a text delimited by c, with backslash escapes and, if open is not c, texts of its kind in
// it: index of c and whether it exists.
func scanned(s string, open, c byte) (int, bool) {
	i, depth := 0, 0
	for i < len(s) {
		if s[i] == c {
			if depth == 0 {
				return i, true
			}
			depth--
		} else if s[i] == open {
			depth++
		}
		if s[i] == '\\' {
			i++
		}
		i++
	}
	return len(s), false
}

// H_C02_quoted: quoted strings at any position of any text of 0..7 (thorough 9) bytes.
func H_C02_quoted() {
	l, rest, p := at(sym.Bound(7, 9))
	s, err := l.QuotedString()
	if rest == "" || rest[0] != '"' {
		sym.Assert(s == "", "nothing to read")
		still(l, rest, p)
		return
	}
	e, ok := scanned(rest[1:], '"', '"')
	sym.Assert((err == nil) == ok, "an error exactly for an unterminated string")
	if ok {
		sym.Assert(s == rest[1:1+e], "the text between the quotes, escapes kept")
		still(l, rest[e+2:], p+e+2)
	}
}

// H_C02_comment: comments at any position of any text of 0..7 (thorough 9) bytes.
func H_C02_comment() {
	l, rest, p := at(sym.Bound(7, 9))
	s, err := l.Comment()
	if rest == "" || rest[0] != '(' {
		sym.Assert(s == "", "nothing to read")
		still(l, rest, p)
		return
	}
	e, ok := scanned(rest[1:], '(', ')')
	sym.Assert((err == nil) == ok, "an error exactly for an unterminated comment")
	if ok {
		sym.Assert(s == rest[1:1+e], "the text between the parentheses, escapes kept")
		still(l, rest[e+2:], p+e+2)
	}
}

// H_C02_until: text up to a delimiter, with escapes removed; an absent delimiter is an error and does not move.
func H_C02_until() {
	l, rest, p := at(sym.Bound(5, 6))
	c := sym.Pick(">", ")", ",")[0]
	s, err := l.GetString(c)
	var want []byte
	i, ok := 0, false
	for i < len(rest) {
		if rest[i] == c {
			ok = true
			break
		}
		if rest[i] == '\\' {
			i++
			if i >= len(rest) {
				break
			}
		}
		want = append(want, rest[i])
		i++
	}
	sym.Assert((err == nil) == ok, "an error exactly when the delimiter is missing")
	if ok {
		sym.Assert(s == string(want), "text with escapes removed")
		still(l, rest[i+1:], p+i+1)
	} else {
		still(l, rest, p)
	}
}

// H_C02_delims: text up to a comma, a semicolon, a delimiter or the line end, and skipping of white space.
func H_C02_delims() {
	l, rest, p := at(sym.Bound(7, 9))
	var n int
	switch sym.Choice(4) {
	case 0:
		n = run(rest, func(c byte) bool { return c != '\n' && c != ',' })
		sym.Assert(l.ByteStringNoComma() == rest[:n], "text up to a comma or the line end")
	case 1:
		n = run(rest, func(c byte) bool { return c != '\n' && c != ';' })
		sym.Assert(l.ByteStringNoSemicolon() == rest[:n], "text up to a semicolon or the line end")
	case 2:
		n = run(rest, func(c byte) bool { return c == ' ' || c == '\t' })
		l.SPorHT()
	case 3:
		n = run(rest, func(c byte) bool { return c != '@' })
		s, err := l.GetNextTokenByDelim('@')
		sym.Assert((err == nil) == (n < len(rest)), "an error exactly when the delimiter is missing")
		if err != nil {
			return
		}
		sym.Assert(s == rest[:n], "text up to the delimiter")
	}
	still(l, rest[n:], p+n)
}

// H_C02_number: numbers of up to 7 (thorough 9) characters and 17 digits followed by 4 symbolic digits.
func H_C02_number() {
	if sym.Choice(2) == 1 {
		s := "92233720368547758" + sym.StringIn(sym.Choice(5), "0123456789")
		l := core.NewCoreLexer("charLexer", s)
		v, err := l.Number()
		big := len(s) > 19 || len(s) == 19 && s > "9223372036854775807"
		sym.Assert((err != nil) == big, "an error exactly beyond the largest integer")
		if err == nil {
			w := 0
			for i := 0; i < len(s); i++ {
				w = w*10 + int(s[i]-'0')
			}
			sym.Assert(v == w, "decimal value")
		}
		return
	}
	l, rest, p := at(sym.Bound(7, 9))
	v, err := l.Number()
	n := run(rest, isDig)
	sym.Assert((err == nil) == (n > 0), "a number exactly when a digit comes next")
	if n == 0 {
		still(l, rest, p)
		return
	}
	w := 0
	for i := 0; i < n; i++ {
		w = w*10 + int(rest[i]-'0')
	}
	sym.Assert(v == w, "decimal value")
	still(l, rest[n:], p+n)
}

// H_C02_namevalue: name=value pairs, tokens and quoted strings, from any text of 0..7 (thorough 9) bytes, separated
// by = or (texts up to 6 bytes) by a colon.
func H_C02_namevalue() {
	n := sym.Choice(sym.Bound(8, 10))
	s := sym.String(n)
	p := core.NewCoreParser(s)
	sep := byte('=')
	if n < 7 {
		sep = sym.Pick("=", ":")[0]
	}
	nv, err := p.NameValue(sep)
	a := run(s, isTok)
	if a == 0 {
		sym.Assert(err != nil, "no name")
		return
	}
	ws := func(o int) int {
		return o + run(s[o:], func(c byte) bool { return c == ' ' || c == '\t' })
	}
	o := ws(a)
	if o >= n || s[o] != sep {
		sym.Assert(err == nil && nv.GetName() == s[:a] && nv.GetValue() == "" && !nv.IsValueQuoted(), "a name without a value")
		return
	}
	o = ws(o + 1)
	if o < n && s[o] == '"' {
		e, ok := scanned(s[o+1:], '"', '"')
		sym.Assert((err == nil) == ok, "an unterminated quoted value is an error")
		if ok {
			sym.Assert(nv.GetName() == s[:a] && nv.GetValue() == s[o+1:o+1+e] && nv.IsValueQuoted(), "quoted value")
			sym.Assert(nv.String() == s[:a]+"=\""+s[o+1:o+1+e]+"\"", "quoted pair text")
		}
		return
	}
	b := run(s[o:], isTok)
	sym.Assert(err == nil, "a token value, possibly empty")
	sym.Assert(nv.GetName() == s[:a] && nv.GetValue() == s[o:o+b] && !nv.IsValueQuoted(), "token value")
	sym.Assert(nv.String() == s[:a]+"="+s[o:o+b], "pair text")
}
