package main

import "time"

func hostTime(ns uint64) time.Time { return time.Unix(0, int64(ns)).UTC() }
func hostDur(ns uint64) string     { return time.Duration(int64(ns)).String() }
