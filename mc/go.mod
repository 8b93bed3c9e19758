module verifmc

go 1.23

require github.com/qmuntal/gltf v0.0.0

replace github.com/qmuntal/gltf => /repo
