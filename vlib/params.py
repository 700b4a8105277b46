"""EPREM's runtime parameters and constants, as EPREM and its documentation define them."""

#: name -> (kind, default, smallest, largest, unit, aliases)
PARAMETERS = {
    'FailModeDump': ('int', '1', '0', '1', None, ()),
    'adiabaticChangeAlg': ('int', '1', '1', '3', None, ()),
    'adiabaticFocusAlg': ('int', '1', '1', '3', None, ()),
    'aziSunStart': ('float', '0.0', '0.0', 'LARGEFLOAT', 'rad', ()),
    'boundaryFunctAmplitude': ('float', '1.0', 'SMALLFLOAT', 'LARGEFLOAT', '1 / (cm^2 * s * sr * (MeV/nuc))', ('J0',)),
    'boundaryFunctBeta': ('float', '2.0', '0.0', 'LARGEFLOAT', '1', ('beta',)),
    'boundaryFunctEcutoff': ('float', '1.0', '0.0', 'LARGEFLOAT', 'MeV', ('E0',)),
    'boundaryFunctEr': ('float', '1.0', '0.0', 'LARGEFLOAT', 'MeV', ('Er', 'reference energy')),
    'boundaryFunctGamma': ('float', '2.0', '0.0', 'LARGEFLOAT', '1', ('gamma',)),
    'boundaryFunctR0': ('float', '1.0', 'config.rScale', 'LARGEFLOAT', 'au', ('R0', 'r0', 'reference radius')),
    'boundaryFunctXi': ('float', '1.0', '0.0', 'LARGEFLOAT', '1', ('xi',)),
    'boundaryFunctionInitDomain': ('int', '1', '0', '1', None, ()),
    'charge': ('list', '[1.0]', '1.0', 'LARGEFLOAT', 'e', ()),
    'checkSeedPopulation': ('int', '1', '0', '1', None, ()),
    'dsh_hel_min': ('float', '2.5e-4', 'SMALLFLOAT', 'LARGEFLOAT', None, ()),
    'dsh_min': ('float', '5.0e-5', 'SMALLFLOAT', 'LARGEFLOAT', None, ()),
    'dumpFreq': ('int', '1', '0', '1000000', None, ()),
    'dumpOnAbort': ('int', '0', '0', '1', None, ()),
    'eMax': ('float', '1000.0', 'config.eMin', 'LARGEFLOAT', 'MeV/nuc', ()),
    'eMin': ('float', '1.0', 'SMALLFLOAT', 'LARGEFLOAT', 'MeV/nuc', ()),
    'epCalcStartTime': ('float', 'config.simStartTime', '0.0', 'LARGEFLOAT', 'day', ()),
    'epEquilibriumCalcDuration': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'epremDomain': ('int', '0', '0', '1', None, ()),
    'epremDomainOutputTime': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'fieldAligned': ('int', '0', '0', '1', None, ()),
    'flowMag': ('float', '400.0e5', 'SMALLFLOAT', 'LARGEFLOAT', 'cm/s', ()),
    'fluxLimiter': ('int', '1', '0', '1', None, ()),
    'focusingLimit': ('float', '1.0', '0.0', '1.0', None, ()),
    'gammaEhigh': ('float', '0.0', '-1.0 * LARGEFLOAT', 'LARGEFLOAT', '1', ()),
    'gammaElow': ('float', '0.0', '-1.0 * LARGEFLOAT', 'LARGEFLOAT', '1', ()),
    'idealShock': ('int', '0', '0', '1', None, ()),
    'idealShockFalloff': ('float', '0.0', '0.0', 'LARGEFLOAT', None, ()),
    'idealShockInitTime': ('float', 'config.simStartTime', 'config.simStartTime', 'LARGEFLOAT', 'day', ()),
    'idealShockJump': ('float', '4.0', 'SMALLFLOAT', 'LARGEFLOAT', '1', ()),
    'idealShockPhi': ('float', '0.0', '0.0', 'TWO_PI', 'rad', ()),
    'idealShockPhiWidth': ('float', 'config.idealShockWidth', '0.0', 'PI', 'rad', ()),
    'idealShockScale': ('float', 'config.idealShockSharpness / config.idealShockScaleLength', '0.0', 'LARGEFLOAT', 'au', ()),
    'idealShockScaleLength': ('float', '0.0046491', 'SMALLFLOAT', 'LARGEFLOAT', 'au', ()),
    'idealShockSharpness': ('float', '1.0', 'SMALLFLOAT', 'LARGEFLOAT', '1', ()),
    'idealShockSpeed': ('float', '1500e5', 'SMALLFLOAT', 'LARGEFLOAT', 'cm/s', ()),
    'idealShockTheta': ('float', 'HALF_PI', '0.0', 'PI', 'rad', ()),
    'idealShockThetaWidth': ('float', 'config.idealShockWidth', '0.0', 'PI', 'rad', ()),
    'idealShockWidth': ('float', '0.0', '0.0', 'PI', 'rad', ()),
    'idw_p': ('float', '3.0', 'SMALLFLOAT', 'LARGEFLOAT', '1', ()),
    'kperxkpar': ('float', '0.01', 'SMALLFLOAT', 'LARGEFLOAT', '1', ('kper_kpar', 'kper/kpar', 'kper / kpar')),
    'lamo': ('float', '1.0', 'SMALLFLOAT', 'LARGEFLOAT', 'au', ('lam0', 'lambda0')),
    'mass': ('list', '[1.0]', '1.0', 'LARGEFLOAT', 'nucleon', ()),
    'mfpRadialPower': ('float', '2.0', '-1.0 * LARGEFLOAT', 'LARGEFLOAT', '1', ('mfp_radial_power',)),
    'mhdBAu': ('float', '1.60e-5', 'SMALLFLOAT', 'LARGEFLOAT', 'G', ()),
    'mhdBConvert': ('float', '1.0', '0.0', 'LARGEFLOAT', '1', ()),
    'mhdCouple': ('int', '0', '0', '1', None, ()),
    'mhdCoupledTime': ('int', '1', '0', '1', None, ()),
    'mhdDensityAu': ('float', '8.30', 'SMALLFLOAT', 'LARGEFLOAT', 'cm^-3', ()),
    'mhdDigits': ('int', '3', '0', '32767', None, ()),
    'mhdDirectory': ('str', '', None, None, None, ()),
    'mhdInitFromOuterBoundary': ('int', '2', '0', '2', None, ()),
    'mhdInitMonteCarlo': ('int', '0', '0', '1', None, ()),
    'mhdInitRadius': ('float', '0.0', '0.0', 'LARGEFLOAT', 'au', ()),
    'mhdInitTimeStep': ('float', '0.000011574074074', '0.0', 'LARGEFLOAT', 'day', ()),
    'mhdNumFiles': ('int', '0', '0', '32767', None, ()),
    'mhdRadialMax': ('float', '0.0', '0.0', 'LARGEFLOAT', 'au', ()),
    'mhdRadialMin': ('float', '0.0', '0.0', 'LARGEFLOAT', 'au', ()),
    'mhdRhoConvert': ('float', '1.0', '0.0', 'LARGEFLOAT', '1', ()),
    'mhdRotateSolution': ('int', '1', '0', '1', None, ()),
    'mhdStartTime': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'mhdSteadyState': ('int', '1', '0', '1', None, ()),
    'mhdTimeConvert': ('float', '1.0', '0.0', 'LARGEFLOAT', '1', ()),
    'mhdVConvert': ('float', '1.0', '0.0', 'LARGEFLOAT', '1', ()),
    'mhdVmin': ('float', '50.0e5', '0.0', 'LARGEFLOAT', 'cm/s', ()),
    'minInjectionEnergy': ('float', '0.01', 'SMALLFLOAT', 'LARGEFLOAT', 'MeV', ()),
    'numColumnsPerFace': ('int', '2', '1', 'LARGEINT', None, ()),
    'numEnergySteps': ('int', '20', '2', 'LARGEINT', None, ()),
    'numEpSteps': ('int', '30', '1', 'LARGEINT', None, ()),
    'numMuSteps': ('int', '20', '2', 'LARGEINT', None, ()),
    'numNodesPerStream': ('int', 'N_PROCS', 'N_PROCS', 'LARGEINT', None, ()),
    'numObservers': ('int', '0', '0', '1000', '1', ()),
    'numRowsPerFace': ('int', '2', '1', 'LARGEINT', None, ()),
    'numSpecies': ('int', '1', '1', '100', None, ()),
    'obsPhi': ('list', '[0.0]', '0.0', 'TWO_PI', 'rad', ()),
    'obsR': ('list', '[config.rScale]', 'config.rScale', 'LARGEFLOAT', 'au', ()),
    'obsTheta': ('list', '[0.0]', '0.0', 'PI', 'rad', ()),
    'omegaSun': ('float', '0.001429813', '0.0', 'LARGEFLOAT', 'rad * cm / (au * s)', ()),
    'outputFloat': ('int', '0', '0', '1', None, ()),
    'outputRestart': ('int', '0', '0', '1000000', None, ()),
    'parallelFlow': ('float', '0.0', '0.0', 'LARGEFLOAT', None, ()),
    'pointObserverOutput': ('int', '0', '0', '1', None, ()),
    'pointObserverOutputTime': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'preEruptionDuration': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'rScale': ('float', 'RSAU', 'SMALLFLOAT', 'LARGEFLOAT', 'au', ()),
    'rigidityPower': ('float', 'third', 'SMALLFLOAT', 'LARGEFLOAT', '1', ('rigidity_power',)),
    'saveRestartFile': ('int', '0', '0', '1', None, ()),
    'seedFunctionTest': ('int', '0', '0', '1', None, ()),
    'shockDetectPercent': ('float', '1.0', '0.0', 'LARGEFLOAT', '1', ()),
    'shockInjectionFactor': ('float', '1.0', '0.0', 'LARGEFLOAT', '1', ()),
    'shockSolver': ('int', '0', '0', '1', None, ()),
    'simStartTime': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'simStopTime': ('float', 'config.simStartTime + config.tDel', 'config.simStartTime', 'LARGEFLOAT', 'day', ()),
    'streamFluxOutput': ('int', '0', '0', '1', None, ()),
    'streamFluxOutputTime': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'streamSpawnLocAzi': ('list', '[0.0]', '0.0', 'TWO_PI', 'rad', ()),
    'streamSpawnLocZen': ('list', '[0.0]', '0.0', 'PI', 'rad', ()),
    'subTimeCouple': ('int', '0', '0', '1', None, ()),
    'tDel': ('float', '0.01041666666667', 'SMALLFLOAT', 'LARGEFLOAT', 'day', ()),
    'unifiedOutput': ('int', '1', '0', '1', None, ()),
    'unifiedOutputTime': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'unstructuredDomain': ('int', '0', '0', '1', None, ()),
    'unstructuredDomainOutputTime': ('float', '0.0', '0.0', 'LARGEFLOAT', 'day', ()),
    'useAdiabaticChange': ('int', '1', '0', '1', None, ()),
    'useAdiabaticFocus': ('int', '1', '0', '1', None, ()),
    'useBoundaryFunction': ('int', '1', '0', '1', None, ()),
    'useDegrees': ('int', '0', '0', '1', None, ()),
    'useDrift': ('int', '0', '0', '1', None, ()),
    'useEPBoundary': ('int', '1', '0', '1', None, ()),
    'useManualStreamSpawnLoc': ('int', '0', '0', '1', None, ()),
    'useMhdSteadyStateDt': ('int', '1', '0', '1', None, ()),
    'useParallelDiffusion': ('int', '1', '0', '1', None, ()),
    'useShellDiffusion': ('int', '0', '0', '1', None, ()),
    'useStochastic': ('int', '0', '0', '1', None, ()),
    'warningsFile': ('str', 'warningsXXX.txt', None, None, None, ()),
}

#: name -> (kind, definition)
CONSTANTS = {
    'AU': ('float', '1.495978707e13', 'cm'),
    'C': ('float', '2.99792458e10', 'cm/s'),
    'DAY': ('float', '( TAU / (24.0 * 60.0 * 60.0)  )', 'day'),
    'DEG2RAD': ('float', '(PI/180.0)', '1'),
    'EV': ('float', '1.6022e-12', 'erg/eV'),
    'F': ('int', '0', None),
    'FCONVERT': ('float', '( 1.0e30 / (C * C * C * C) )', '1'),
    'GEV': ('float', '1.6022e-3', 'erg/GeV'),
    'HALF_PI': ('float', '1.5707963267948966', None),
    'LARGEFLOAT': ('float', '1.0e33', None),
    'LARGEINT': ('int', '2147483647', None),
    'MAX_STRING_SIZE': ('int', '240', None),
    'MEV': ('float', '1.6022e-6', 'erg/MeV'),
    'MHD_B_NORM': ('float', '( sqrt(MP*MHD_DENSITY_NORM) * C )', '1'),
    'MHD_COUPLED': ('int', '1', None),
    'MHD_DEFAULT': ('int', '0', None),
    'MHD_DENSITY_NORM': ('float', '1.0', '1'),
    'MP': ('float', '1.6726e-24', 'g'),
    'MZERO': ('float', '(MP*C*C/GEV)', 'GeV'),
    'OM': ('float', '( MHD_B_NORM * Q * AU / (MP * C * C) )', '1'),
    'PI': ('float', '3.141592653589793', None),
    'Q': ('float', '4.80320425e-10', 'statC'),
    'RAD2DEG': ('float', '(180.0/PI)', '1'),
    'RSAU': ('float', '(RSUN/AU)', '1'),
    'RSUN': ('float', '6.96e10', 'cm'),
    'SMALLFLOAT': ('float', '1.0e-33', None),
    'T': ('int', '1', None),
    'TAU': ('float', '( AU / C )', 's'),
    'THRESH': ('float', '0.025', '1'),
    'TWO_PI': ('float', '6.283185307179586', None),
    'VOLT': ('float', '0.33333e-2', '1'),
}
