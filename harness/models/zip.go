package models

import "archive/zip"

func errZipChecksum() error  { return zip.ErrChecksum }
func errZipAlgorithm() error { return zip.ErrAlgorithm }

// NewZip builds the reader of a virtual package; the engine remembers which entry each
// *zip.File is.
func NewZip(names []string) *zip.Reader {
	r := &zip.Reader{}
	for _, n := range names {
		f := &zip.File{}
		f.Name = n
		r.File = append(r.File, f)
	}
	return r
}

func ZipFormatErr() error { return zip.ErrFormat }
