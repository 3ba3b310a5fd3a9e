"""Value sets of the standard (RP66 v1 chapter 5 and appendix B), as documented for the high-compatibility mode."""
UNITS = ('A K cd dAPI dB gAPI kg m mol nAPI rad s sr Btu C D GPa Gal Hz J L MHz MPa MeV Mg Mpsi N Oe P Pa S T V W Wb a acre '
         'atm b bar bbl c cP cal cm cu d daN deg degC degF dm eV fC ft g gal h in kHz kPa kV keV kgf km lbf lbm mA mC mD '
         'mGal mL mS mT mV mW mg min mm mohm ms nC nW ns ohm pC pPa ppdk ppk ppm psi pu t ton uA uC uPa uV um uohm upsi '
         'us').split()
INDEX_TYPES = 'ANGULAR-DRIFT BOREHOLE-DEPTH NON-STANDARD RADIAL-DRIFT VERTICAL-DEPTH'.split()
EQUIPMENT_TYPES = (
    'Adapter Board Bottom-Nose Bridle Cable Calibrator Cartridge Centralizer Chamber Cushion Depth-Device Display Drawer '
    'Excentralizer Explosive-Source Flask Geophone Gun Head Housing Jig Joint Nuclear-Detector Packer Pad Pane Panel '
    'Positioning Printer Radioactive-Source Shield Simulator Skid Sonde Spacer Standoff System Tool Tool-Module Transducer '
    'Vibration-Source').split()
EQUIPMENT_LOCATIONS = 'Logging-System Remote Rig Well'.split()
