type tag struct {
	id, typ, count int
	data           []byte
}

// header lays out a header with the given tags
func header(tags []tag) []byte {
	align := map[int]int{3: 2, 4: 4, 5: 8}
	var idx, data []byte
	for _, t := range tags {
		for a := align[t.typ]; a > 0 && len(data)%a != 0; {
			data = append(data, 0)
		}
		for _, v := range []int{t.id, t.typ, len(data), t.count} {
			idx = binary.BigEndian.AppendUint32(idx, uint32(v))
		}
		data = append(data, t.data...)
	}
	out := []byte{0x8e, 0xad, 0xe8, 1, 0, 0, 0, 0}
	out = binary.BigEndian.AppendUint32(out, uint32(len(tags)))
	out = binary.BigEndian.AppendUint32(out, uint32(len(data)))
	return append(append(out, idx...), data...)
}

// build puts a package together
func build(sig, gen []tag, payload []byte) []byte {
	lead := make([]byte, 96)
	copy(lead, []byte{0xed, 0xab, 0xee, 0xdb, 3, 0, 0, 0})
	out := append(lead, header(sig)...)
	for len(out)%8 != 0 {
		out = append(out, 0)
	}
	return append(append(out, header(gen)...), payload...)
}

func str(id int, s ...string) tag {
	t := tag{id, 8, len(s), nil}
	for _, v := range s {
		t.data = append(append(t.data, v...), 0)
	}
	return t
}

func str1(id int, s string) tag { return tag{id, 6, 1, append([]byte(s), 0)} }

func u32(id int, v ...uint32) tag {
	t := tag{id, 4, len(v), nil}
	for _, x := range v {
		t.data = binary.BigEndian.AppendUint32(t.data, x)
	}
	return t
}

func u16(id int, v ...uint16) tag {
	t := tag{id, 3, len(v), nil}
	for _, x := range v {
		t.data = binary.BigEndian.AppendUint16(t.data, x)
	}
	return t
}

func bin(id int, b []byte) tag { return tag{id, 7, len(b), b} }

func basic(more ...tag) []tag {
	return append([]tag{str1(1000, "n"), str1(1001, "1"), str1(1002, "2"), str1(1022, "noarch")}, more...)
}

// entry is a cpio newc entry
func entry(name string, mode, nlink, ino int, data string) []byte {
	b := []byte(fmt.Sprintf("070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x",
		ino, mode, 0, 0, nlink, 0, len(data), 0, 0, 0, 0, len(name)+1, 0))
	b = append(append(b, name...), 0)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	b = append(b, data...)
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

func archive(entries ...[]byte) []byte {
	return append(bytes.Join(entries, nil), entry("TRAILER!!!", 0, 1, 0, "")...)
}

var _ = fmt.Sprint
var _ = bytes.Join
var _ = binary.BigEndian
