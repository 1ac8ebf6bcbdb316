//go:build vdirect

package main

import (
	"context"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
)

const direct = true

func open(ctx context.Context, ca *chunkfs.ChunkAccessor, id string) error { return ca.VerifOpen(ctx, id) }
func cls(ca *chunkfs.ChunkAccessor, id string) error                       { return ca.VerifClose(id) }
func del(ca *chunkfs.ChunkAccessor, id string) error {
	if !ca.VerifDel(id) {
		return errors.ErrConflict
	}
	return nil
}
