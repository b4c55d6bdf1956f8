module verif/harness

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/hangulize/hangulize v0.0.0
	github.com/ikawaha/kagome.ipadic v1.1.2
	github.com/mattn/go-runewidth v0.0.14
	github.com/mozillazg/go-pinyin v0.19.0
	golang.org/x/text v0.5.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/pkg/errors v0.9.1 // indirect
	github.com/rivo/uniseg v0.2.0 // indirect
	github.com/spf13/cobra v1.6.1 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	github.com/suapapa/go_hangul v1.2.1 // indirect
)

replace github.com/hangulize/hangulize => /repo
