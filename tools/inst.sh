# prints the 13 instantiations of a generic case function: inst.sh fn
for t in int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64; do printf '%s[%s], ' "$1" $t; done
