package build

import (
	"crypto/md5"
	"crypto/rc4"
)

// rc4Key is the key of one block of the standard encryption ([MS-OFFCRYPTO] 2.3.6.2).
func rc4Key(password string, salt []byte, block uint32) []byte {
	h0 := md5.Sum(Chars(U16s(password), true))
	var mix []byte
	for i := 0; i < 16; i++ {
		mix = append(mix, h0[:5]...)
		mix = append(mix, salt...)
	}
	h1 := md5.Sum(mix)
	k := md5.Sum(append(append([]byte{}, h1[:5]...), W32(block)...))
	return k[:]
}

// RC4Stream is the keystream of the first n bytes, with a new key every 1024 bytes.
func RC4Stream(password string, salt []byte, n int) []byte {
	out := make([]byte, n)
	for b := 0; b*1024 < n; b++ {
		e := b*1024 + 1024
		if e > n {
			e = n
		}
		c, _ := rc4.NewCipher(rc4Key(password, salt, uint32(b)))
		c.XORKeyStream(out[b*1024:e], out[b*1024:e])
	}
	return out
}

// RC4Header is the encryption header: version, salt, verifier and its hash.
func RC4Header(password string, salt, verifier []byte) []byte {
	h := md5.Sum(verifier)
	p := append(append([]byte{}, verifier...), h[:]...)
	for i, k := range RC4Stream(password, salt, len(p)) {
		p[i] ^= k
	}
	return Cat(W16(1), W16(1), salt, p)
}

// Encrypt encrypts a workbook stream that holds a FilePass record: record headers,
// some records and the position of sheets stay in the clear.
func Encrypt(stream []byte, password string, salt []byte) []byte {
	key := RC4Stream(password, salt, len(stream))
	out := append([]byte{}, stream...)
	for p := 0; p+4 <= len(stream); {
		typ := uint16(stream[p]) | uint16(stream[p+1])<<8
		n := int(stream[p+2]) | int(stream[p+3])<<8
		p += 4
		skip := 0
		switch typ {
		case RBOF, RFilePass, 0x0194, 0x0195, 0x00E1, 0x0196, 0x0138:
			skip = n
		case RBound:
			skip = 4
		}
		for i := skip; i < n; i++ {
			out[p+i] ^= key[p+i]
		}
		p += n
	}
	return out
}
