//go:build go1.21

// Package vgenerate stands in for package generate under the plugins:
// generating succeeds or fails on request.
package vgenerate

import (
	"github.com/danhhz/zeropb/generate"
	"github.com/danhhz/zeropb/zzverif/shim/vos"
	"github.com/danhhz/zeropb/zzverif/shim/vproto"
)

type (
	CodeGeneratorRequest       = generate.CodeGeneratorRequest
	CodeGeneratorResponse      = generate.CodeGeneratorResponse
	CodeGeneratorResponse_File = generate.CodeGeneratorResponse_File
	FileDescriptorProto        = generate.FileDescriptorProto
	FileDescriptorSet          = generate.FileDescriptorSet
	DescriptorProto            = generate.DescriptorProto
	FieldDescriptorProto       = generate.FieldDescriptorProto
	Version                    = generate.Version
)

func Generate(req *CodeGeneratorRequest) (*CodeGeneratorResponse, error) {
	if err := vos.Fail("generating"); err != nil {
		return nil, err
	}
	res := &CodeGeneratorResponse{}
	if vproto.Parsed != nil && vproto.Parsed == vproto.Message(req) {
		vproto.Result = res
	}
	return res, nil
}
