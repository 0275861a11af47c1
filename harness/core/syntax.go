package core

import (
	"errors"

	"github.com/romshark/jscan/v2"
)

// syntaxIndexOK tells whether the index returned along with a syntax error is the one
// the tokenizer reports for the text.
func syntaxIndexOK(txt string, o outcome) bool {
	t := jscan.NewTokenizer[string](8, 64)
	e := t.Tokenize(txt, func([]jscan.Token[string]) bool { return false })
	if !e.IsErr() || e.Index != o.idx {
		return false
	}
	var es jscan.Error[string]
	var eb jscan.Error[[]byte]
	if errors.As(o.err, &es) {
		return es.Code == e.Code
	}
	if errors.As(o.err, &eb) {
		return eb.Code == e.Code
	}
	return false
}
