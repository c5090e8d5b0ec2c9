// Prints generator configurations as JSON, one line per file named on stdin.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"gopkg.in/yaml.v2"
)

type Conf struct {
	Error   string `yaml:"-"`
	Module  struct{ Name, Path string }
	Targets map[string]*struct {
		Package         string
		Services        map[string]string
		Out             string
		GoRPC           []string `yaml:"gorpc"`
		TSRPC           []string `yaml:"tsrpc"`
		SkipTSRPCClient bool     `yaml:"skipTSRPCClient"`
	}
	Mappings map[string]*struct {
		Out     string
		Structs []string
		Scalars []string
	}
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var c Conf
		b, err := os.ReadFile(sc.Text())
		if err == nil {
			err = yaml.Unmarshal(b, &c)
		}
		if err != nil {
			c = Conf{Error: err.Error()}
		}
		out, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		fmt.Println(string(out))
	}
}
