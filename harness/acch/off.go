//go:build !vdirect

package main

import (
	"context"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
)

const direct = false

func open(context.Context, *chunkfs.ChunkAccessor, string) error { return errors.ErrUnimplemented }
func cls(*chunkfs.ChunkAccessor, string) error                   { return errors.ErrUnimplemented }
func del(*chunkfs.ChunkAccessor, string) error                   { return errors.ErrUnimplemented }
