cd /verif; python3 -c "
import vlib,checks,sys
vlib.build_engine();vlib.build_ref()
for k in sys.argv[1:]:
    d=checks.BUILDS[k]; vlib.prepare(d); vlib.build_ir(d['ir'][0],d['ir'][1],d['cfgs'],d.get('features',()),d.get('default_features',True))
" "$@"
