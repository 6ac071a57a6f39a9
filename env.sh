. /opt/vp/env.sh
export OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_btl_base_warn_component_unused=0
export PYTHONPATH=/verif/harness:/repo/src
