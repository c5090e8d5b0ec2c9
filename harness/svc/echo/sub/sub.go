package sub

type Leaf struct {
	A int8
	B *bool
	C uint64 `json:"c"`
}

type Key string
