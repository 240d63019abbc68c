# tryrename.sh NAME SEDEXPR "FILES" "PROPS": checks a copy of /repo in which something unexported has another name
n=$1; d=/tmp/ren-$n; git clone -q /repo $d; cd $d; sed -i -E "$2" $3; . /verif/env.sh; go build ./... || exit 1
for p in $4; do timeout 800 /verif/bin/gocv -repo $d -dir /verif -prop $p -v -noreplay > /tmp/ren-$n.$p 2>&1; echo "$n $p rc=$? $(grep "^$p:" /tmp/ren-$n.$p | cut -c1-140)"; done
rm -rf /tmp/ren-$n
