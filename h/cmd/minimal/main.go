// Command minimal signs and verifies with nothing imported but the package
// under test (and no hash packages): one request per line on standard input,
// "<method> <hex key> <hex text>", one answer per line.
package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"

	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

func main() {
	in := bufio.NewReader(os.Stdin)
	for {
		var m, k, s string
		if n, _ := fmt.Fscanf(in, "%s x%s x%s\n", &m, &k, &s); n < 3 {
			return
		}
		key, _ := hex.DecodeString(k[1:])
		text, _ := hex.DecodeString(s[1:])
		fmt.Println(answer(m, key, string(text)))
	}
}

func answer(name string, key []byte, text string) (out string) {
	defer func() {
		if x := recover(); x != nil {
			out = fmt.Sprintf("panic: %v", x)
		}
	}()
	m := cryptoer.GetSigningMethod(name)
	if m == nil {
		return "no such method"
	}
	sig, err := m.Sign(text, key)
	if err != nil {
		return "sign: " + err.Error()
	}
	if err := m.Verify(text, sig, key); err != nil {
		return "verify: " + err.Error()
	}
	return sig
}
