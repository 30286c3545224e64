// stands in for the generated header of the same name, which the NAL unit decoder includes and does not use
