from hv.conc.base import main
main()
