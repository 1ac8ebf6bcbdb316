package chunkfs

import "context"

// VerifOpen, VerifClose and VerifDel give the harness the access requests of Chunk and Replicator
func (cc *ChunkAccessor) VerifOpen(ctx context.Context, cID string) error { return cc.openChunk(ctx, cID) }
func (cc *ChunkAccessor) VerifClose(cID string) error                     { return cc.closeChunk(cID) }
func (cc *ChunkAccessor) VerifDel(cID string) bool                        { return cc.setDeleting(cID) }
