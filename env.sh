export MPLBACKEND=agg QT_QPA_PLATFORM=offscreen PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME=/root TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8
