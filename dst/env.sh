export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME=/root LANG=C.UTF-8
export MALLOC_MMAP_THRESHOLD_=4294967296 MALLOC_TRIM_THRESHOLD_=8589934592 MALLOC_TOP_PAD_=67108864
