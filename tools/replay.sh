#!/bin/bash
E=$(ls /verif/build/sim-*/monsim); $E --replay ${1:-/tmp/monsim.replay0}
