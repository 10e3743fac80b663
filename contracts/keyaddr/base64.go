package keyaddr

import (
	"encoding/base64"
	"errors"

	"verif.local/spec"
)

//govc:helper
func zz64(e *base64.Encoding) int {
	switch e {
	case base64.StdEncoding:
		return 0
	case base64.URLEncoding:
		return 1
	case base64.RawStdEncoding:
		return 2
	}
	return 3
}

// Base 64: what is encoded can be decoded.
//
//govc:model (*encoding/base64.Encoding).DecodeString
func Model_Decode64(e *base64.Encoding, s string) ([]byte, error) {
	n := zz64(e)
	if !spec.FnBool("64ok", n, s) {
		return spec.Any(-1), errors.New("illegal base64 data")
	}
	return spec.Fn("64decode", -1, n, s), nil
}

//govc:model (*encoding/base64.Encoding).EncodeToString
func Model_Encode64(e *base64.Encoding, b []byte) string {
	n := zz64(e)
	s := string(spec.Fn("64encode", -1, n, b))
	spec.Assume(spec.FnBool("64ok", n, s))
	spec.Assume(spec.BytesEq(spec.Fn("64decode", -1, n, s), b))
	return s
}
