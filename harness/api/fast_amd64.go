package api

import (
	"os"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

// The accelerated functions may be called by name because the runner made sure
// that the CPU has AVX2.
func init() {
	if os.Getenv("SVB_NOFAST") != "" {
		return
	}
	Writers[0] = append(Writers[0], Writer{"writer.WriteAllFast", plainW(writer.WriteAllFast)})
	Writers[1] = append(Writers[1], Writer{"writer.WriteAllDeltaFast", writer.WriteAllDeltaFast})
	Readers[0] = append(Readers[0], Reader{"reader.ReadAllFast", plainR(reader.ReadAllFast)})
	Readers[1] = append(Readers[1], Reader{"reader.ReadAllDeltaFast", reader.ReadAllDeltaFast})
	Encs8[0] = append(Encs8[0], Enc8{"encode.Put8uint32Fast", false, plainE(encode.Put8uint32Fast)})
	Encs8[1] = append(Encs8[1], Enc8{"encode.Put8uint32DeltaFast", false, encode.Put8uint32DeltaFast})
	Decs8[0] = append(Decs8[0], Dec8{"decode.Get8uint32Fast", false, plainD(decode.Get8uint32Fast)})
	Decs8[1] = append(Decs8[1], Dec8{"decode.Get8uint32DeltaFast", false, decode.Get8uint32DeltaFast})
}
