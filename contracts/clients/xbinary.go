package xbinary

import "io"

// Client functions: Go code verified together with the package (overlay; not part of /repo).

func vUint16(w io.Writer, r io.Reader, i uint16) (v uint16, werr, rerr error) {
	if werr = WriteUint16(w, i); werr == nil {
		v, rerr = ReadUint16(r)
	}
	return
}

func vUint32(w io.Writer, r io.Reader, i uint32) (v uint32, werr, rerr error) {
	if werr = WriteUint32(w, i); werr == nil {
		v, rerr = ReadUint32(r)
	}
	return
}

func vBool(w io.Writer, r io.Reader, i bool) (v bool, werr, rerr error) {
	if werr = WriteBool(w, i); werr == nil {
		v, rerr = ReadBool(r)
	}
	return
}

func vBytes(w io.Writer, r io.Reader, s []byte) (v []byte, werr, rerr error) {
	if werr = WriteBytes(w, s); werr == nil {
		v, rerr = ReadBytes(r)
	}
	return
}
