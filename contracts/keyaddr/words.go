package keyaddr

import (
	"encoding/base64"
	"errors"
	"math/rand"
	"strings"

	"github.com/ndau/ndaumath/pkg/words"
	"verif.local/spec"
)

// Lists of words as abstract values: how they are made and used is decided by
// C04, C05 and C07.

//govc:model strings.Join
func Model_Join(l []string, sep string) string { return string(spec.Fn("join", -1, l, sep)) }

//govc:model strings.Split
func Model_Split(s, sep string) []string { return spec.FnList("split", s, sep) }

//govc:model strings.Fields
func Model_Fields(s string) []string { return spec.FnList("fields", s) }

//govc:model github.com/ndau/ndaumath/pkg/words.FromBytes
func Model_WordsFromBytes(lang string, b []byte) ([]string, error) {
	if !spec.FnBool("wordsFromOK", lang, b) {
		return nil, errors.New("no words")
	}
	return spec.FnList("wordsFrom", lang, b), nil
}

//govc:model github.com/ndau/ndaumath/pkg/words.ToBytes
func Model_WordsToBytes(lang string, l []string) ([]byte, error) {
	if !spec.FnBool("wordsToOK", lang, l) {
		return nil, errors.New("no words")
	}
	return spec.Fn("wordsTo", -1, lang, l), nil
}

//govc:model github.com/ndau/ndaumath/pkg/words.FromPrefix
func Model_FromPrefix(lang, prefix string, max int) string {
	return string(spec.Fn("wordsPrefix", -1, lang, prefix, max))
}

func Gen_WordsFrom(r *rand.Rand) (string, string) {
	b := make([]byte, r.Intn(40))
	r.Read(b)
	s := base64.StdEncoding.EncodeToString(b)
	if r.Intn(4) == 0 {
		s = base64.URLEncoding.EncodeToString(b)
	}
	return []string{"en", "en", "fr"}[r.Intn(3)], s
}

// Words are those of the decoded data, separated by single spaces.
//
//govc:prop C21
//govc:func WordsFromBytes
//govc:gen WordsFrom
//govc:noprune
func Contract_WordsFromBytes(lang, data string) {
	s, err := WordsFromBytes(lang, data)
	b, derr := base64.StdEncoding.DecodeString(data)
	if derr != nil {
		spec.EnsuresN("only base 64", err != nil && s == "")
		return
	}
	l, lerr := words.FromBytes(lang, b)
	if lerr != nil {
		spec.EnsuresN("only what has words", err != nil && s == "")
		return
	}
	spec.EnsuresN("the words", err == nil && s == strings.Join(l, " "))
}

func Gen_WordsTo(r *rand.Rand) (string, string) {
	lang, s := Gen_WordsFrom(r)
	w, err := WordsFromBytes("en", s)
	if err != nil {
		return lang, s
	}
	switch r.Intn(8) {
	case 0:
		w += " "
	case 1:
		w = " " + w
	case 2:
		w = strings.Replace(w, " ", "  ", 1)
	case 3:
		w = strings.Replace(w, " ", ",", 1)
	}
	return lang, w
}

// Data are those of the list of words.
//
//govc:prop C21
//govc:func WordsToBytes
//govc:gen WordsTo
//govc:noprune
func Contract_WordsToBytes(lang, w string) {
	s, err := WordsToBytes(lang, w)
	b, berr := words.ToBytes(lang, strings.Split(w, " "))
	if berr != nil {
		spec.EnsuresN("only lists of words", err != nil && s == "")
		return
	}
	spec.EnsuresN("the data", err == nil && s == base64.StdEncoding.EncodeToString(b))
}

func Gen_WordsPrefix(r *rand.Rand) (string, string, int) {
	return []string{"en", "en", "fr"}[r.Intn(3)], []string{"ab", "z", "", "cat", "xx"}[r.Intn(5)], r.Intn(6) - 1
}

// Completion.
//
//govc:prop C21
//govc:func WordsFromPrefix
//govc:gen WordsPrefix
func Contract_WordsFromPrefix(lang, prefix string, max int) {
	spec.EnsuresN("the words", WordsFromPrefix(lang, prefix, max) == words.FromPrefix(lang, prefix, max))
}
