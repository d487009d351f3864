#!/bin/bash
. /opt/vp/env.sh
cd /verif/engine && go build -o /tmp/gosym . && cd /verif && exec nice -n ${NICE:-0} /tmp/gosym "$@"
