"""attributes of a NEMDE file the generated documents carry"""
VIOLATIONS = ['@TotalAreaGenViolation', '@TotalInterconnectorViolation', '@TotalGenericViolation', '@TotalRampRateViolation',
              '@TotalUnitMWCapacityViolation', '@TotalEnergyConstrViolation', '@TotalEnergyOfferViolation', '@TotalASProfileViolation',
              '@TotalFastStartViolation', '@TotalMNSPRampRateViolation', '@TotalMNSPOfferViolation', '@TotalMNSPCapacityViolation',
              '@TotalUIGFViolation']
PRICES = ['@EnergyDeficitPrice', '@EnergySurplusPrice', '@InterconnectorPrice', '@GenericConstraintPrice', '@RampRatePrice', '@CapacityPrice',
          '@OfferPrice', '@ASProfilePrice', '@ASMaxAvailPrice', '@ASEnablementMinPrice', '@ASEnablementMaxPrice', '@FastStartPrice',
          '@MNSPRampRatePrice', '@MNSPOfferPrice', '@MNSPLossesPrice', '@MNSPCapacityPrice', '@UIGFSurplusPrice', '@VoLL', '@TieBreakPrice',
          '@MPF', '@GenericRampRatePrice', '@SatisfactoryNetworkPrice']
