package main

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"
)

// Contents may be no UTF-8, which JSON strings cannot carry as they are.
const rawMark = "\x00base64:"

func enc(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, rawMark) {
		return s
	}
	return rawMark + base64.StdEncoding.EncodeToString([]byte(s))
}

func dec(s string) string {
	if t, ok := strings.CutPrefix(s, rawMark); ok {
		if b, err := base64.StdEncoding.DecodeString(t); err == nil {
			return string(b)
		}
	}
	return s
}

func (f FileSpec) MarshalJSON() ([]byte, error) {
	type plain FileSpec
	f.Content = enc(f.Content)
	return json.Marshal(plain(f))
}

func (f *FileSpec) UnmarshalJSON(b []byte) error {
	type plain FileSpec
	err := json.Unmarshal(b, (*plain)(f))
	f.Content = dec(f.Content)
	return err
}

func (o drvOp) MarshalJSON() ([]byte, error) {
	type plain drvOp
	o.Content, o.Other = enc(o.Content), enc(o.Other)
	return json.Marshal(plain(o))
}

func (o *drvOp) UnmarshalJSON(b []byte) error {
	type plain drvOp
	err := json.Unmarshal(b, (*plain)(o))
	o.Content, o.Other = dec(o.Content), dec(o.Other)
	return err
}

func (o libOp) MarshalJSON() ([]byte, error) {
	type plain libOp
	o.Content, o.Prefix, o.Nest = enc(o.Content), enc(o.Prefix), enc(o.Nest)
	return json.Marshal(plain(o))
}

func (o *libOp) UnmarshalJSON(b []byte) error {
	type plain libOp
	err := json.Unmarshal(b, (*plain)(o))
	o.Content, o.Prefix, o.Nest = dec(o.Content), dec(o.Prefix), dec(o.Nest)
	return err
}
