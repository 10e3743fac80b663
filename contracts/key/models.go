package key

import (
	"errors"

	"verif.local/spec"
)

// Models of derivation for the contracts on its callers: some function of the
// key and the number, about which only the form of the result is assumed (which
// C17 and C18 prove).

//govc:model (*github.com/ndau/ndaumath/pkg/key.ExtendedKey).Child
//govc:optional
func Model_Child(k *ExtendedKey, i uint32) (*ExtendedKey, error) {
	n := spec.U(uint64(i))
	if !spec.FnBool("childOK", k.key, k.chainCode, k.isPrivate, int(k.depth), n) {
		return nil, errors.New("no child")
	}
	return NewExtendedKey(spec.Fn("childKey", zzKeyLen(k.isPrivate), k.key, k.chainCode, k.isPrivate, n),
		spec.Fn("childChain", 32, k.key, k.chainCode, k.isPrivate, n),
		spec.Fn("childFP", 3, k.key, k.isPrivate), k.depth+1, i, k.isPrivate), nil
}

//govc:model (*github.com/ndau/ndaumath/pkg/key.ExtendedKey).HardenedChild
//govc:optional
func Model_HardenedChild(k *ExtendedKey, i uint32) (*ExtendedKey, error) {
	n := spec.U(uint64(i))
	if !spec.FnBool("hardOK", k.key, k.chainCode, k.isPrivate, int(k.depth), n) {
		return nil, errors.New("no child")
	}
	return NewExtendedKey(spec.Fn("hardKey", zzKeyLen(k.isPrivate), k.key, k.chainCode, k.isPrivate, n),
		spec.Fn("hardChain", 32, k.key, k.chainCode, k.isPrivate, n),
		spec.Fn("hardFP", 3, k.key, k.isPrivate), k.depth+1, i|1<<31, k.isPrivate), nil
}

//govc:model (*github.com/ndau/ndaumath/pkg/key.ExtendedKey).DeriveFrom
//govc:optional
func Model_DeriveFrom(k *ExtendedKey, parent, child string) (*ExtendedKey, error) {
	if !spec.FnBool("pathOK", k.key, k.chainCode, k.isPrivate, int(k.depth), parent, child) {
		return nil, errors.New("no child")
	}
	p := k.isPrivate
	return NewExtendedKey(spec.Fn("pathKey", zzKeyLen(p), k.key, k.chainCode, p, parent, child),
		spec.Fn("pathChain", 32, k.key, k.chainCode, p, parent, child),
		spec.Fn("pathFP", 3, k.key, p, parent, child), spec.Fn("pathDepth", 1, k.key, p, int(k.depth), parent, child)[0],
		uint32(spec.Fn("pathNum", 1, k.key, p, parent, child)[0]), p), nil
}

// UnmarshalText as a function of the text.
//
//govc:model (*github.com/ndau/ndaumath/pkg/key.ExtendedKey).UnmarshalText
//govc:optional
func Model_UnmarshalText(k *ExtendedKey, text []byte) error {
	if !spec.FnBool("textOK", text) {
		k.Zero()
		return errors.New("no key")
	}
	p := spec.FnBool("textPrivate", text)
	*k = *NewExtendedKey(spec.Fn("textKey", zzKeyLen(p), text), spec.Fn("textChain", 32, text), spec.Fn("textFP", 3, text),
		spec.Fn("textDepth", 1, text)[0], uint32(spec.Fn("textNum", 1, text)[0]), p)
	return nil
}

//govc:model github.com/ndau/ndaumath/pkg/key.FromOldSerialization
//govc:optional
func Model_FromOld(text string) (*ExtendedKey, error) {
	if !spec.FnBool("oldOK", text) {
		return nil, errors.New("no key")
	}
	p := spec.FnBool("oldPrivate", text)
	return NewExtendedKey(spec.Fn("oldKey", zzKeyLen(p), text), spec.Fn("oldChain", 32, text), spec.Fn("oldFP", 3, text),
		spec.Fn("oldDepth", 1, text)[0], uint32(spec.Fn("oldNum", 1, text)[0]), p), nil
}

//govc:model github.com/ndau/ndaumath/pkg/key.NewMaster
//govc:optional
func Model_NewMaster(seed []byte) (*ExtendedKey, error) {
	if !spec.FnBool("masterOK", seed) {
		return nil, errors.New("no key")
	}
	return NewExtendedKey(spec.Fn("masterKey", 32, seed), spec.Fn("masterChain", 32, seed), []byte{0, 0, 0}, 0, 0, true), nil
}
