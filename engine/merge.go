package main

func (fr *frame) tryMerge(c *Term) int { return -1 }
