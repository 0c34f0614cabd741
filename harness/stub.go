package main

// The recording plugin: this binary called as protoc-gen-*. It writes the
// request to a file in $VREC_LOG, if set, and answers with one file for each
// file to generate. Flags make it misbehave.

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/golang/protobuf/proto"
	plugin "github.com/golang/protobuf/protoc-gen-go/plugin"
)

func pluginMain() {
	name := strings.TrimPrefix(filepath.Base(os.Args[0]), "protoc-gen-")
	raw, err := ioutil.ReadAll(os.Stdin)
	must(err)
	req := &plugin.CodeGeneratorRequest{}
	must(proto.Unmarshal(raw, req))
	if dir := os.Getenv("VREC_LOG"); dir != "" {
		f, err := ioutil.TempFile(dir, name+"@")
		must(err)
		_, err = f.Write(raw)
		must(err)
		must(f.Close())
	}
	res := &plugin.CodeGeneratorResponse{}
	for _, flag := range strings.Split(req.GetParameter(), ",") {
		switch flag {
		case "fail=error":
			res.Error = proto.String("the plugin says no")
		case "fail=exit":
			os.Exit(3)
		case "fail=output":
			fmt.Fprintln(os.Stderr, "the plugin has something to say")
		}
	}
	for _, f := range req.GetFileToGenerate() {
		for _, n := range []string{f, filepath.Join(filepath.Dir(f), "deeper", filepath.Base(f))} {
			res.File = append(res.File, &plugin.CodeGeneratorResponse_File{
				Name: proto.String(n + "." + name), Content: proto.String(pluginContent(n, req.GetParameter())),
			})
		}
	}
	out, err := proto.Marshal(res)
	must(err)
	_, err = os.Stdout.Write(out)
	must(err)
}

func pluginContent(name, param string) string { return name + " by " + param + "\n" }
