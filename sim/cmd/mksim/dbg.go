package main

import (
	"encoding/json"
	"fmt"
)

func dump(prop string, seed uint64) {
	sc := genScenario(prop, seed)
	b, _ := json.Marshal(sc.Cfg)
	fmt.Println(string(b))
	for _, s := range sc.Steps {
		b, _ := json.Marshal(s)
		fmt.Println(string(b))
	}
}
