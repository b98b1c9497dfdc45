# alt.sh N: copy of /verif and /repo under /tmp/altN with paths rewritten
n=$1; d=/tmp/alt$n; rm -rf /tmp/alt$n; mkdir -p $d
git clone -q /repo $d/repo; 
rsync -a --exclude .git --exclude seeded --exclude .build /verif/ $d/verif/ 2>/dev/null || (mkdir -p $d/verif; cd /verif; tar c --exclude=./.git --exclude=./seeded --exclude=./.build . | tar x -C $d/verif)
cd $d/verif
grep -rlE '/repo|/verif' --include=*.py --include=*.toml --include=*.sh --include=*.rs --include=*.json . | grep -v target/ | xargs sed -i "s#/repo\b#$d/repo#g; s#/verif\b#$d/verif#g"
ls -a; du -sh .
