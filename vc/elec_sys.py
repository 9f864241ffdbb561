"""concrete end-to-end systems, solved with a named solver"""


def electrical(par, solver):
    from phasor import system, electronics as E, readouts
    s = system.BGSystem(solver_name=solver, F_AC=par[0])
    s.own.V1 = E.VoltageSource(V_DC=par[1])
    s.own.R1 = E.SeriesResistor(resistance_Ohms=par[2])
    s.own.R2 = E.TerminatorResistor(resistance_Ohms=par[3])
    s.own.C1 = E.TerminatorCapacitor(capacitance_Farads=par[4])
    s.own.L1 = E.SeriesInductor(inductance_Henries=par[5])
    s.own.R3 = E.TerminatorResistor(resistance_Ohms=par[6])
    s.bond_sequence(s.V1.pe_A, s.R1.pe_A, s.R2.pe_A)
    s.bond(s.R2.pe_A, s.C1.pe_A)
    s.bond_sequence(s.R2.pe_A, s.L1.pe_A, s.R3.pe_A)
    s.own.rV = E.VoltageReadout(terminal=s.R2.pe_A)
    s.own.rV3 = E.VoltageReadout(terminal=s.R3.pe_A)
    s.own.ac = readouts.ACReadout(portD=s.V1.V.i, portN=s.rV3.V.o)
    s.own.dc = readouts.DCReadout(port=s.rV.V.o)
    return dict(DC=s.dc.DC_readout, AC=s.ac.AC_sensitivity, noise=s.ac.AC_ASD)


def cavity(par, solver):
    from phasor import system, optics, readouts
    s = system.BGSystem(solver_name=solver, F_AC=par[0] * 1e3)
    s.own.laser = optics.Laser(F=s.F_carrier_1064, power_W=par[1])
    s.own.itm = optics.Mirror(T_hr=.1 * par[2])
    s.own.etm = optics.Mirror(T_hr=.05 * par[3])
    s.own.s1 = optics.Space(L_m=par[4], L_detune_m=par[5] * 1e-9)
    s.own.reflPD = optics.MagicPD()
    s.own.transPD = optics.PD()
    s.bond_sequence(s.laser.po_Fr, s.reflPD.po_Bk, s.itm.po_Bk, s.s1.po_Fr, s.etm.po_Fr, s.transPD.po_Fr)
    s.own.dc = readouts.DCReadout(port=s.reflPD.Wpd.o)
    s.own.dct = readouts.DCReadout(port=s.transPD.Wpd.o)
    s.own.ac = readouts.ACReadout(portD=s.etm.Z.d.o, portN=s.transPD.Wpd.o)
    return dict(DC=s.dc.DC_readout, T=s.dct.DC_readout, AC=s.ac.AC_sensitivity, noise=s.ac.AC_ASD)
