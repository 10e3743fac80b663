NYB = "not built yet"
p("C01", "Bitsets behave as sets of the numbers 0..255",
  "Setting, clearing, flipping and testing a member of a 256-bit set affects or reports exactly the member asked for and no other, and union, intersection, subset and equality are those of sets of the numbers 0 to 255. Operations documented as returning a new set never change their operands, and a clone shares nothing with its original.",
  ["every pair of sets (2^512) and every index"], "tests sample a few sets and indices; a fault at one word boundary or one bit pattern is outside them",
  ["pkg/bitset256/bitset256.go"], ["word/mask arithmetic of Get, Set, Clear, Toggle; Clone before Union/Intersect"],
  note="Proved for all inputs by SMT over the real SSA; New is proved for up to 4 listed members (bounded).")
p("C02", "Bitset count, index list and order agree with the members",
  "The count of a 256-bit set is its number of members, and its index list is exactly its members, each once, in increasing order. The less-than relation compares two sets as 256-bit numbers in which member k has weight 2^k, so it is a strict total order.",
  ["every set and every pair of sets"], "tests use a handful of sets", ["pkg/bitset256/bitset256.go"], ["Count, Indices, Less"],
  note="Count and Less proved for all sets; Indices is proved only for sets of one or two members (bounded, exhaustive over all such sets).")
p("C03", "Bitset byte and hex forms are lossless",
  "Every 256-bit set survives a round trip through its 32-byte form and through its 64-digit hexadecimal form unchanged, and every 32-byte string is the byte form of exactly one set. Input that is not 32 bytes, or not hexadecimal for 32 bytes, is refused with an error.",
  ["every set, every byte string, every hexadecimal text of 64 digits"], "tests use a handful of sets", ["pkg/bitset256/bitset256.go"], ["AsBytes, FromBytes, AsHex, FromHex"],
  note="Proved for all sets, all 32-byte strings and all 64-character texts; refusal of texts of other lengths is checked for a few lengths (bounded). Executes the standard library encoding/hex in place.")
p("C08", "Base-32 text and checksums are lossless, canonical and as specified",
  "Every byte string survives encoding to ndau base 32 and decoding, in either letter case; text of full groups that decodes is exactly the encoding of what it decodes to. The characters are the successive five-bit groups of the data, most significant bit first, in the 32-character alphabet without l, o, 0 and 1. The two-byte checksum is CRC-16/AUG-CCITT, the three-byte checksum the start of SHA-256, and Check accepts exactly data with its own checksum.",
  ["every byte string and every text"], "tests use a few strings", ["pkg/b32/b32.go", "pkg/b32/checksum.go"], ["Encode, Decode, Index, Checksum16, Checksum24, Check"],
  note="Round trip for all lengths, with encoding/base32 taken as a bijection onto its legal texts; the exact digits and the exact CRC are proved by executing encoding/base32 and sigurn/crc16 themselves for data of up to 20 bytes and the lengths addresses use (28 and 30 bytes).")
p("C09", "An address is determined by its kind and the hash of its data",
  "Generating an address succeeds exactly for the six known kinds and at least 12 bytes of data. It is always 48 characters, begins with nd and the kind's letter, carries the last 26 bytes of the SHA-256 hash of the data followed by a valid checksum, reports its kind, and is accepted by Validate unchanged. Two generated addresses are equal only if kind and those hash bytes are equal.",
  ["every kind byte and every data"], "tests use a few keys", ["pkg/address/address_impl.go"], ["Generate, Validate, Kind, IsValidKind, ParseKind"],
  note="Proved for all kinds and data of any length; SHA-256 and CRC-16 are functions about which nothing else is assumed.")
p("C10", "Mistyped addresses are rejected",
  "If a valid address is changed in one character, by swapping two neighbouring characters, or in any other way that stays within three neighbouring characters, and the changed text still consists of letters of the alphabet, the result is not a valid address.",
  ["every valid address, every position, every replacement (about 2^250 addresses)"], "no test changes characters of valid addresses systematically", ["pkg/address/address_impl.go", "pkg/b32/checksum.go"], ["Validate, CRC-16 table and update, base 32"],
  note="Proved for every address: Validate, encoding/base32 and the CRC are executed symbolically; one case per position.")
p("C11", "Accepted address text is canonical",
  "Validate accepts a text exactly when, in lower case, it is the 48-character encoding of 30 bytes of known kind whose last two are the checksum of the first 28; the resulting address is that lower-case text and validating it again changes nothing. Unmarshalling text accepts the same texts and stores the same canonical address, leaving the receiver unchanged on error, and addresses survive their text and MessagePack forms unchanged.",
  ["every text"], "tests use a few addresses", ["pkg/address/address_impl.go", "pkg/address/address.go", "pkg/address/address_gen.go"], ["Validate, UnmarshalText, MarshalText, MarshalMsg, UnmarshalMsg"],
  note="Proved for all texts; encoding/base32 is taken as a bijection onto its legal texts, and strings.ToLower as an idempotent function.")
p("C04", "Recovery word lists read back as the data they were written from",
  "Writing any byte string of up to 32 bytes as a list of words and reading the list back gives the same byte string. The list has as many words as are needed for the data and at least 4 checksum bits, and the bits of the data are the first bits of the words' positions in the list, 11 bits each, most significant first. A language other than the known one is refused.",
  ["every byte string of up to 32 bytes, in particular all 2^128 16-byte seeds"], "tests use a handful of byte strings, and the result depends on every bit through the packing and the checksum",
  ["pkg/words/words.go", "pkg/words/english.go"], ["FromBytes, ToBytes, padData, crc8, setRun, nthRun, lookupWord"],
  note="Proved for all data of each length up to 32 bytes (25 words), by executing the bit packing and CRC symbolically in canonical bit-vector form; lookupWord is replaced by its contract, proved for all positions and all strings. Known finding: about 1 in 4096 16-byte values is read back as 15 bytes.")
p("C05", "Only word lists that were written are accepted",
  "Reading a word list of up to 25 words succeeds only if the list is exactly the one that is written for the bytes that are returned; a list that contains a word that is not in the word list, or whose checksum bits do not belong to the data, is refused with an error.",
  ["every list of up to 25 words (2048^25 lists of listed words, and all lists with unlisted words)"], "tests use a handful of lists",
  ["pkg/words/words.go", "pkg/words/english.go"], ["ToBytes, FromBytes, crc8, lookupWord"],
  note="Proved for all lists of each length up to 25 words.")
p("C07", "Word completion returns exactly the matching words",
  "Asking for the words with a given prefix returns precisely the words of the list that begin with it, in the order of the list, separated by single spaces; with a positive limit it returns the first so many of them. An unknown language, or a prefix that no word has, gives the empty text. The list consists of 2048 different words in increasing order.",
  ["every prefix and every limit"], "tests use a handful of prefixes", ["pkg/words/words.go", "pkg/words/english.go"], ["FromPrefix, english word list"],
  note="Proved for all prefixes of 1 to 9 bytes (no word is longer than 8) and every limit; the empty prefix for listed limits only (bounded).")
p("C12", "Data with a checksum is accepted exactly as it was made",
  "Adding a checksum yields a whole number of five-byte groups: one length byte, the data, and the last 3 to 7 bytes of the data's SHA-224 hash. Checking accepts precisely the byte strings that adding a checksum produces and returns the data that was put in; every other byte string, however short or malformed, is rejected.",
  ["every byte string"], "tests use a few strings and random damage", ["pkg/signature/checksum.go"], ["AddChecksum, CheckChecksum, cksumN, checksumWidth"],
  note="Proved for byte strings of any length; SHA-224 is a function about which nothing else is assumed.")
p("C13", "Keys survive their binary, MessagePack and text forms",
  "A public or private key of any known algorithm (or none), with key bytes of the size that the algorithm requires and any extra data, is read back with the same algorithm, key and extra bytes from its binary form, its MessagePack form (with whatever follows it left over) and its text form; text of a private key is never read as a public key or the reverse. The size estimate for the MessagePack form is never too small. A key that has been read has a known algorithm and the size which that algorithm requires.",
  ["every algorithm, every key content, every amount of extra data, every text or message"], "tests use a few keys per algorithm",
  ["pkg/signature/keybase.go", "pkg/signature/public_key.go", "pkg/signature/private_key.go", "pkg/signature/key.go", "pkg/signature/container.go", "pkg/signature/container_gen.go", "pkg/signature/id_map.go"],
  ["pack/unpack, marshal/unmarshal, size checks, text prefixes npub and npvt"],
  note="Proved for all contents; the MessagePack library is executed in place.")
p("C14", "Signatures survive their binary, MessagePack and text forms",
  "A signature of any known algorithm with data of the size the algorithm allows is read back with the same algorithm and data from its binary, MessagePack and text forms, and a MessagePack form leaves what follows it and is never longer than its size estimate. A signature that has been read has a known algorithm and a size which that algorithm allows.",
  ["every algorithm, every content, every text or message"], "tests use a few signatures",
  ["pkg/signature/signature.go", "pkg/signature/container.go", "pkg/signature/container_gen.go", "pkg/signature/algorithm.go"], ["marshal/unmarshal, checkSize"],
  note="Proved for all contents; the MessagePack library is executed in place.")
p("C15", "Untrusted input is refused with an error, never a crash",
  "Reading keys (also extended keys, in the old and new form), signatures, addresses, checksummed data, base-32 text, recovery words and bitsets from arbitrary bytes or text (binary, MessagePack, text and word-list forms) always returns, with a result or an error: no input of any length causes a run-time panic such as an index out of range, a nil dereference or an impossible allocation.",
  ["every byte string or text"], "the inputs that crash are the ones that nobody thought to test",
  ["pkg/signature/keybase.go", "pkg/signature/signature.go", "pkg/signature/checksum.go", "pkg/signature/container.go", "pkg/signature/container_gen.go", "pkg/signature/key.go", "pkg/address/address_impl.go", "pkg/address/address_gen.go", "pkg/b32/b32.go", "pkg/words/words.go", "pkg/bitset256/bitset256.go", "pkg/key/extendedkey.go", "pkg/key/convert_serialization.go"],
  ["length checks before slicing, checksum width, container decoding"],
  note="Every possible run-time panic in the executed code is an obligation. All lengths for keys, signatures, addresses, base 32 and checksums; word lists of up to 25, of 32 and of 47 words; hexadecimal bitset text of listed lengths (bounded).")
p("C16", "Signatures are accepted exactly for the message and key they belong to",
  "A generated key pair belongs together: the public key is that of the private key, both have the size of their algorithm, Match confirms them, and a signature by the private key of any message is accepted by the public key. Verification accepts precisely what the algorithm's library accepts: Ed25519 over the whole message, secp256k1 ECDSA over its SHA-256 hash. A signature of one algorithm is never accepted by a key of another, the Null algorithm accepts nothing and generates no keys, and signing the same message twice gives the same signature. Extra data does not change what a key signs or accepts; truncating removes only the extra data, and zeroizing a key clears it without touching copies.",
  ["every random source, message, key, signature and extra data"], "tests sign a few messages with a few keys",
  ["pkg/signature/algorithm.go", "pkg/signature/algorithms/ed25519/ed25519.go", "pkg/signature/algorithms/secp256k1/secp256k1.go", "pkg/signature/algorithms/null/null.go", "pkg/signature/public_key.go", "pkg/signature/private_key.go", "pkg/signature/signature.go"],
  ["Generate, Sign, Verify, Match, Public, Zeroize, Truncate"],
  note="Proved for all messages and keys. Ed25519 and ECDSA are taken as functions of which only their contracts are assumed: a signature made is accepted for the same message and the public key of the private key, and is deterministic.")
p("C17", "Keys are derived exactly as BIP32 prescribes",
  "The master key is HMAC-SHA512 of a 16 to 64 byte seed under the key 'ndau seed', refused if it is zero or not below the curve order. A child's key is the parent's plus the left half of the HMAC-SHA512 of the parent's public key (or, for a hardened child, a zero byte and the private key) and the child number under the parent's chain code, modulo the curve order, always as 32 bytes; for public keys the same sum is made with points. The right half is the child's chain code; the depth increases by one, the child number and the parent's fingerprint are recorded. Keys that BIP32 does not allow are refused: the zero key, a left half not below the order, the point at infinity, a depth over 255, a hardened child of a public key, and a hardened index of 2^31 or more.",
  ["every seed, every key, chain code and depth, every child number"], "tests use the BIP32 vectors and a few paths; conditions like leading zero bytes occur for one key in 256 or far fewer",
  ["pkg/key/extendedkey.go", "pkg/bip32/bip32.go"], ["NewMaster, Child, HardenedChild, GenerateSeed, PrivateToPublic"],
  note="Proved for all inputs. Assumed contracts for btcec (points are multiples of the generator, addition adds the factors, compressed serialization is injective and parsing inverts it); HMAC-SHA512 and SHA-256 are functions about which nothing else is assumed; math/big as mathematical integers.")
p("C18", "Public and private derivation agree, and keys do not share memory",
  "For a key that is not hardened, the public key of the child of a private key is the child of its public key, in every field, and one exists exactly if the other does. Taking the public key keeps chain code, fingerprint, depth and child number and contains nothing private. Deriving changes nothing in the parent; clearing a key overwrites its memory and leaves keys derived from it, and the key it came from, unharmed.",
  ["every key, chain code, depth and child number"], "tests compare a few derived keys",
  ["pkg/key/extendedkey.go"], ["Child, Public, PubKeyBytes, Zero, ECPubKey, ParentFingerprint"],
  note="Proved for all inputs, under the same assumed contracts for btcec, HMAC and hashes as C17.")
p("C19", "Extended keys survive their text form and conversions",
  "Every extended key, private or public, is read back from its text with the same key, chain code, parent fingerprint, depth, child number and kind, whatever the receiver held before. As a signature key it has the secp256k1 algorithm, the same key bytes and 40 extra bytes: depth, fingerprint, big-endian child number and chain code; converting back restores it, and keys converted into one another share no memory, so clearing one never damages the other. Signature keys of another algorithm, or with fewer extra bytes, are refused. The old serialization is accepted exactly if it decodes to 80 bytes with a correct double-hash checksum and a usable key, and yields the fields it contains. No text makes either reader crash.",
  ["every key, chain code, fingerprint, depth and child number, every text"], "tests convert a few keys",
  ["pkg/key/extendedkey.go", "pkg/key/convert_serialization.go", "pkg/signature/keybase.go"], ["MarshalText, UnmarshalText, AsSignatureKey, FromSignatureKey, extra, parseExtra, FromOldSerialization"],
  note="Proved for all inputs; encoding/base32 taken as a bijection onto its legal texts, hashes and btcec as in C17.")
p("C21", "The wallet interface does exactly what the key packages do",
  "The string-based keys of keyaddr behave as the extended keys whose text they hold: children, hardened children, public keys, derivation by path, conversion to and from signature keys, kind, signatures and addresses are the text of what the key, signature and address packages give for that key, and fail exactly when those do. A negative index is refused. A key and its public key have the same address, a user address. A seed, a message or data must be standard base 64. A key's own text, or the text of the old serialization, is read back as that key. Word lists are the words of the decoded data separated by single spaces, and the reverse.",
  ["every key, index, path, message and text"], "tests use a few keys",
  ["pkg/keyaddr/key.go", "pkg/keyaddr/key_conv.go", "pkg/keyaddr/signature.go", "pkg/keyaddr/words.go"], ["NewKey, FromString, FromOldString, DeriveFrom, ToPublic, Child, HardenedChild, Sign, NdauAddress, IsPrivate, conversions, words"],
  note="Proved for all inputs. Derivation, word lists and (where only the composition matters) text parsing are represented by their results, which C04, C05, C07 and C17 to C20 are about; encoding/base64, strings.Join and strings.Split are functions of which only the round trip of base 64 is assumed.")
p("C20", "Paths derive step by step",
  "A derivation path is a slash, or a sequence of decimal numbers below 2^32, each after a slash and followed by an apostrophe if hardened, with spaces ignored; every other text is refused. A path is a parent of another exactly if it is a proper prefix of it, element by element. Deriving from a parent path to a child path gives what the remaining elements give when they are derived one after the other, hardened or not, fails as soon as one of them fails or when the first path is no parent of the second, and leaves the key that it starts from unchanged.",
  ["every path text and pair of paths"], "tests parse some paths and derive a few keys",
  ["pkg/key/path.go"], ["newPath, isParentOf, DeriveFrom"], level="other",
  note="Bounded: every text of up to 8 bytes, every number of up to 12 digits, paths of 5 to 40 one-digit elements, pairs of paths of up to 20 and 21 elements; derivation over abstract paths of up to 4 elements and by listed paths of up to 20 elements, for all keys. Package strconv is executed in place; for package regexp, Go's matcher itself runs once for each combination of the byte classes that the pattern distinguishes.")

p("C22", "Checked arithmetic is exact or refused",
  "Adding, subtracting, multiplying, dividing, taking the remainder and scaling by a fraction (v*n/d) of signed or unsigned 64-bit numbers returns the exact mathematical result, quotients being truncated towards zero, or an error: exactly if the result does not fit 64 bits, or the divisor is zero. In no case is a wrapped value returned. (Scaling is exact as long as the product v*n has at most 34 digits, which the decimal library carries.)",
  ["every pair or triple of 64-bit numbers"], "tests use a handful of values; overflow has to be right at every boundary",
  ["pkg/signed/math.go", "pkg/unsigned/math.go"], ["Add, Sub, Mul, Div, Mod, DivMod, MulDiv"],
  note="Proved for all inputs. The decimal library (github.com/ericlagergren/decimal) is not available offline; what is assumed of it is stated as executable code in stubs/decimal: integers of up to 34 digits, rounded half even.")

p("C23", "Amounts of ndau compute, print and parse exactly",
  "Adding or subtracting amounts of ndau is exact, with an error exactly if the result does not fit; comparison is the order of the numbers and the absolute value is that of the number. An amount is read back from its MessagePack form, with whatever follows left over, and an amount that is not negative from its decimal text; the text of a negative amount is a minus sign and the text of its opposite. A decimal number of up to 8 decimals is read as exactly what it says, or refused with an error if it does not fit; texts that are not such numbers are refused.",
  ["every amount, every decimal number"], "tests use a handful of amounts",
  ["pkg/types/ndau.go", "pkg/types/ndau_gen.go", "pkg/signed/math.go"], ["Add, Sub, Abs, Compare, String, ParseNdau, MarshalMsg, UnmarshalMsg"],
  note="Proved for all amounts; parsing for numbers of up to 21 digits before the point and arbitrary texts of up to 3 bytes (bounded). The digits that strconv and fmt write are taken from their documentation; strconv's parser is executed in place, regular expressions by Go's matcher for each combination of byte classes. The decimal library is represented by stubs/decimal (see C22).")
p("C24", "Time arithmetic stays within its limits",
  "Adding a duration to a moment or subtracting it is exact, except that a moment before the epoch becomes the epoch and one after the last representable moment becomes that moment. The time between two moments is exact, and adding it leads back; comparison is the order of the moments; a moment is read back from its MessagePack form, with whatever follows left over.",
  ["every moment and duration"], "wrap-around happens only near the limits", ["pkg/types/timestamp.go", "pkg/types/timestamp_gen.go"], ["Add, Sub, Since, Compare, MarshalMsg, UnmarshalMsg"],
  note="Proved for all values. The text form (package time) is not covered.")
p("C25", "Durations survive their text form",
  "The text of a duration gives its numbers of years (365 days), months (30 days), days and, after a t, hours, minutes, seconds and microseconds, as far as they are not 0, after a minus sign if it is negative; it is read back as the same duration. A duration that does not fit is refused with an error. Durations become whole milliseconds of Go time, and the reverse, and are read back from their MessagePack form with whatever follows left over.",
  ["every duration"], "tests use a handful of durations", ["pkg/types/duration.go", "pkg/types/duration_gen.go"], ["String, ParseDuration, DurationFrom, TimeDuration, MarshalMsg, UnmarshalMsg"],
  note="Text: proved for all numbers of months, days, hours, minutes and seconds, with years and microseconds of 1 or 6 digits or none in the quick check (bounded), of any number of digits in the thorough check; numbers of years of up to 21 digits. Assumptions as for C23.")
p("C26", "The weighted average age is the weighted average",
  "After a deposit the weighted average age is the age (increased by the time since the last update) times the previous balance, divided by the new balance, rounded towards zero; otherwise it grows by the time since the last update. An age that does not fit, or a balance that does not fit, is refused with an error and changes nothing. For balances and times that are not negative it is never negative and never grows faster than time.",
  ["every age, time, quantity and balance"], "tests use one history", ["pkg/types/duration.go", "pkg/signed/math.go"], ["UpdateWeightedAverageAge"],
  note="Proved for all inputs whose product of age and balance has at most 34 digits. The decimal library is represented by stubs/decimal (see C22).")
p("C27", "The exponential of a fraction is accurate",
  "For every fraction n/d between 0 and 1 with a denominator below 10^16 (below 10^16 also for signed numbers), ExpFrac returns, in units of 1/d, the sum of the exponential series up to the term for 20, each power truncated to a tenth of a unit, rounded to the nearest unit: a result between 1 + n/d and 3, exactly 1 for 0, with no overflow on the way. A fraction above 1 (or, for signed numbers, a negative one) is refused with an error; it never returns a wrapped number and never panics.",
  ["every numerator and denominator"], "tests use a few fractions; the overflow needs denominators or fractions beyond them",
  ["pkg/unsigned/math.go", "pkg/signed/math.go"], ["ExpFrac"],
  note="Proved for all inputs. MulDiv is represented by its result (a quotient which is not greater than the number scaled, which is proved of it as part of C22 and C27).")
p("C28", "The integer logarithm is exact",
  "LnInt(x) is the greatest k with e^k <= x, for every 64-bit x of 1 or more, and -1 for 0.",
  ["every 64-bit number"], "the errors are at single numbers next to powers of e", ["pkg/unsigned/math.go"], ["LnInt, its table of powers of e"],
  note="Proved for all inputs, against the powers of e calculated independently to 60 digits.")
p("C29", "Rate tables are looked up and sliced without gap",
  "The rate at an age is that of the last row that does not begin later, or 0 before the first. A slice of a rate table covers the whole time from its beginning to its end exactly once, without gap, in order, and at every moment of it has the rate which the table has for that moment, moved by the offset, but not later than the moment at which the rate was frozen. Slice is the same with nothing frozen.",
  ["every rate table, pair of ages, offset and freeze"], "tests use one table and some intervals; the conditions are at the edges of rows",
  ["pkg/eai/rate.go"], ["RateAt, Slice, SliceF"], level="other",
  note="Bounded: rate tables of up to 6 rows for RateAt, up to 4 rows for SliceF, up to 3 rows for Slice; for all rates and ages in them (ages up to 2^61).")
p("C30", "EAI is the balance times what the factor exceeds 1 by",
  "The EAI of an account is its balance times the EAI factor less 1, rounded down, or an error if it does not fit. The factor is the product, over the periods of the rate table between the age at the last calculation and the age now, of the exponentials of rate times duration in years; 1 if no time has passed. A lock adds its bonus to every rate and moves the ages by its notice period, and from its announcement on the rate is frozen. If the lock has expired, it counts up to the moment at which it expired, and not at all afterwards.",
  ["every balance, time, age, lock and rate table"], "tests use some histories of one table",
  ["pkg/eai/eai.go", "pkg/eai/lock.go", "pkg/eai/rate.go", "pkg/types/timestamp.go"], ["Calculate, calculateEAIFactor"], level="other",
  note="Calculate is proved for all inputs, over the result of calculateEAIFactor. The factor is bounded: rate tables of up to one row executed entirely, or any up to two periods that a slice may give (C29), on each side of the expiry. MulDiv and ExpFrac are represented by their results (C22, C27).")
p("C31", "The current EAI rate is that of the table",
  "The current rate of an account is that which the rate table has for its age; for a locked account, that for the age that it will have when it could be unlocked at the earliest (or when it unlocks, if that has been announced), plus the bonus of the lock.",
  ["every age, lock, moment and rate table"], "tests use one table", ["pkg/eai/eai.go", "pkg/eai/lock.go", "pkg/eai/rate.go"], ["CalculateEAIRate"], level="other",
  note="Bounded: rate tables of up to 3 rows; for all rates, ages, locks and moments.")
p("C32", "The price depends on the block sold, and follows the published curve",
  "The price of the next ndau depends only on which block of 1000 ndau it is in: the phase 1 curve up to block 10000, phases 2 and 3 up to block 29999, then $500450.83 for ever; for no number sold is it an error. Both variants of the curve differ only in phase 1, in which the price of block b is 2^(14b/9999) dollars (2^(14b/10000) on the old curve) to within one part in 500 million. In phases 2 and 3 the price is a whole number of dollars within $3 of the published cubic polynomial. From one block to the next it never falls.",
  ["every number of ndau sold"], "tests use a handful of numbers", ["pkg/pricecurve/pricecurve.go"], ["PriceAtUnit, PriceAtUnit9999, PriceAtUnit10000, phase1, phase23"], level="other",
  note="Proved for all numbers which are not negative, except phase 1, whose number of rounds depends on the block: it is executed for some 50 blocks (bounded), the first ones, those next to powers of two (where the table of doublings changes), and the last. phase1 and phase23 are represented by their results in the first part.")
p("C33", "Amounts of dollars are read exactly",
  "A number of dollars, with an optional minus and dollar sign and, optionally, a point and two to eleven digits, is read as exactly the number of nanocents that it says, or refused with an error if it does not fit; commas and underscores between digits do not matter. Other texts are refused. An amount is read back from its MessagePack form, with whatever follows left over.",
  ["every number of dollars, every text"], "tests use a handful of texts", ["pkg/pricecurve/nanocent.go", "pkg/pricecurve/nanocent_gen.go"], ["ParseDollars, MarshalMsg, UnmarshalMsg"], level="other",
  note="Bounded: numbers of up to 10 digits before the point (all amounts that fit have at most 8); one separator in numbers of 4 to 6 digits; arbitrary texts of up to 3 bytes. The MessagePack form is proved for all amounts. strings, strconv's parser and unicode are executed in place, regular expressions by Go's matcher for each combination of byte classes.")
p("C34", "Rates survive their text and binary forms",
  "The text of a rate which is not negative is its decimal number of percent without superfluous zeros, and is read back as the same rate. A number of percent with up to ten digits after the point is read as exactly the rate that it says, or refused if it does not fit; a text which is accepted is a number before a percent sign with spaces only around them. Rates, rows and rate tables are read back from their MessagePack form.",
  ["every rate, row and rate table, every text"], "tests use a handful of rates", ["pkg/eai/rate.go", "pkg/eai/rate_gen.go"], ["Rate.String, ParseRate, MarshalMsg, UnmarshalMsg, Msgsize"], level="other",
  note="Bounded: rates of less than 900000000 percent; numbers of up to 9 digits before the point; arbitrary texts of up to 3 bytes; tables of up to 1 row, or up to 4 rows of numbers of 2^32 and more. Single rates and rows in binary form are proved for all values. strings, strconv's parser and unicode are executed in place.")
p("N01", "Moments survive their text form",
  "Every moment is written as its time in UTC with microseconds, and read back as the same moment.", ["every moment"], "tests use a few moments",
  ["pkg/types/timestamp.go"], ["Timestamp.String, ParseTimestamp, AsTime, TimestampFrom"], claimed=False,
  na="The text is made and parsed by package time, whose calendar arithmetic and layouts would have to be assumed, which would assume the property itself.")
p("N02", "The JavaScript interface does what keyaddr does",
  "The functions that the WebAssembly program offers to JavaScript return what the functions of package keyaddr return, or an error.", ["every call"], "the program has no Go tests",
  ["cmd/keyaddr"], ["wasm bindings"], claimed=False,
  na="It builds only for js/wasm, on syscall/js, whose values live in a JavaScript engine; there is no contract for them on this side. The Go functions behind it are C21.")
