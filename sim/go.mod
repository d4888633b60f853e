module octsim

go 1.23

require gopkg.in/yaml.v2 v2.4.0
