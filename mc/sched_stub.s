//go:build zzvsched

// This file lets the package declare functions without bodies.
