// Reads JSON operations, one list per line, applies them to a fresh router, prints the answers.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net/url"
	"os"

	"github.com/dask/dask-gateway/dask-gateway-proxy/pkg/router"
)

func apply(r *router.Router, op []string) (out []interface{}) {
	defer func() {
		if e := recover(); e != nil {
			out = []interface{}{"panic", fmt.Sprint(e)}
		}
	}()
	switch op[0] {
	case "put":
		u, err := url.Parse(op[2])
		if err != nil {
			panic(err)
		}
		r.Put(op[1], u)
	case "del":
		r.Delete(op[1])
	case "match":
		u, rest := r.Match(op[1])
		has := r.HasMatch(op[1])
		if u == nil {
			return []interface{}{"-", rest, has}
		}
		return []interface{}{u.String(), rest, has}
	case "dump":
		b, err := r.MarshalJSON()
		if err != nil {
			panic(err)
		}
		var m map[string]string
		json.Unmarshal(b, &m)
		return []interface{}{m}
	}
	return []interface{}{}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var ops [][]string
		if err := json.Unmarshal(line, &ops); err != nil {
			panic(err)
		}
		r := router.NewRouter()
		res := make([][]interface{}, 0)
		for _, op := range ops {
			res = append(res, apply(r, op))
		}
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
	}
}
