package ref

// Bech32 text form of addresses after BIP-173, written independently of the implementation: 5-bit regrouping through a bit
// string and the checksum as a polynomial remainder over GF(32).

const b32chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// polymod is the BIP-173 checksum residue of the values.
func polymod(vs []byte) uint32 {
	g := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, v := range vs {
		top := c >> 25
		c = c<<5&0x3fffffff ^ uint32(v)
		for i := uint(0); i < 5; i++ {
			if top&(1<<i) != 0 {
				c ^= g[i]
			}
		}
	}
	return c
}

func hrpValues(h string) (out []byte) {
	for i := 0; i < len(h); i++ {
		out = append(out, h[i]>>5)
	}
	out = append(out, 0)
	for i := 0; i < len(h); i++ {
		out = append(out, h[i]%32)
	}
	return
}

// Bech32Of5 spells 5-bit groups with a checksum whose residue is final (1 for Bech32).
func Bech32Of5(hrp string, groups []byte, final uint32) string {
	m := polymod(append(append(hrpValues(hrp), groups...), 0, 0, 0, 0, 0, 0)) ^ final
	out := hrp + "1"
	for _, g := range groups {
		out += string(b32chars[g])
	}
	for i := 25; i >= 0; i -= 5 {
		out += string(b32chars[m>>uint(i)&31])
	}
	return out
}

// Groups5 regroups bytes into 5-bit groups, zero padded; pad is the number of padding bits.
func Groups5(b []byte) (groups []byte, pad int) {
	n := len(b) * 8
	for i := 0; i < n; i += 5 {
		g := byte(0)
		for j := i; j < i+5; j++ {
			g <<= 1
			if j < n && b[j/8]>>(7-uint(j%8))&1 == 1 {
				g |= 1
			}
		}
		groups = append(groups, g)
	}
	return groups, len(groups)*5 - n
}

// Bech32 spells bytes.
func Bech32(hrp string, b []byte) string {
	g, _ := Groups5(b)
	return Bech32Of5(hrp, g, 1)
}

// ParseBech32 is the specified decoder; ok tells whether the string is a valid Bech32 string of whole bytes.
func ParseBech32(s string) (hrp string, data []byte, ok bool) {
	if len(s) > 90 {
		return
	}
	up, lo, sep := false, false, -1
	b := []byte(s)
	for i, c := range b {
		switch {
		case c < 33 || c > 126:
			return
		case c >= 'A' && c <= 'Z':
			up = true
			b[i] = c + 32
		case c >= 'a' && c <= 'z':
			lo = true
		case c == '1':
			sep = i
		}
	}
	if up && lo || sep < 1 || len(s)-sep-1 < 6 {
		return
	}
	var gs []byte
	for _, c := range b[sep+1:] {
		v := -1
		for k := 0; k < 32; k++ {
			if b32chars[k] == c {
				v = k
			}
		}
		if v < 0 {
			return
		}
		gs = append(gs, byte(v))
	}
	hrp = string(b[:sep])
	if polymod(append(hrpValues(hrp), gs...)) != 1 {
		return "", nil, false
	}
	gs = gs[:len(gs)-6]
	bits := len(gs) * 5
	if bits%8 >= 5 {
		return "", nil, false
	}
	data = make([]byte, bits/8)
	for i := 0; i < bits; i++ {
		bit := gs[i/5] >> (4 - uint(i%5)) & 1
		if i < len(data)*8 {
			data[i/8] |= bit << (7 - uint(i%8))
		} else if bit != 0 {
			return "", nil, false
		}
	}
	return hrp, data, true
}

// AddrIDOK tells whether the bytes are the identifier form of a valid address.
func AddrIDOK(b []byte) bool {
	plain := func(t byte) bool { return t == 0 || t == 8 || t == 16 || t == 24 || t == 40 }
	switch {
	case len(b) == 33 && (plain(b[0]) || b[0] == 32):
		return true
	case len(b) >= 35 && b[0] == 48 && plain(b[1]):
		n := int(b[34])
		return n <= 2 && len(b) == 35+n && (n == 0 || b[34+n] != 0)
	}
	return false
}

// AddrID is the identifier form of an address: its encoding, with multi addresses replaced by type and digest.
func AddrID(raw []byte, multi bool) []byte {
	if !multi {
		return raw
	}
	return append([]byte{40}, Blake(raw)...)
}
