mk () 
{ 
    mkdir -p seeded/$1;
    cat > seeded/$1/demo.cc;
    python3 - "$@" <<'EOF'
import json,sys
_,id,p,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%id,'w'))
EOF

    bash meta/newseed.sh $1
}
